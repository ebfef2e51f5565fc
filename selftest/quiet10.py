"""Renames, moves and changed private signatures across files."""
PA, ER, RM, ST, RV, CM, LB, CO, IT, VC, PR, AS, SP, LX, RC, FM = (
    "src/compile/parse.rs", "src/error.rs", "src/render/mod.rs", "src/render/stack.rs", "src/render/value.rs",
    "src/compile/mod.rs", "src/lib.rs", "src/render/core.rs", "src/render/iter.rs", "src/value/cow.rs",
    "src/types/program.rs", "src/types/ast.rs", "src/types/span.rs", "src/compile/lex.rs", "src/render/core.rs", "src/filters/mod.rs")


def everywhere(old, new, *files):
    return [(f, old, "@ALL" + new) for f in files]


E = [
 ("q10_span_fields", [(SP, '''    pub m: usize,
    pub n: usize,
}

impl Span {''', '''    pub start: usize,
    pub end: usize,
}

impl Span {'''), (SP, '''        let m = min(self.m, other.m);
        let n = max(self.n, other.n);
        Self { m, n }''', '''        Self {
            start: min(self.start, other.start),
            end: max(self.end, other.end),
        }'''), (SP, '''        let Span { m, n } = span;
        &self[m..n]''', '''        &self[span.start..span.end]'''), (SP, '''            m: r.start,
            n: r.end,''', '''            start: r.start,
            end: r.end,'''), (SP, "&(self.m..self.n)", "&(self.start..self.end)"),
   (ER, "span.m)", "span.start)"), (PA, "span.m + i", "@ALLspan.start + i"), (PA, "span.n - raw.len()", "@ALLspan.end - raw.len()")]),
 ("q10_instr_rename", everywhere("EmitRaw", "Text", PR, CO, CM) + everywhere("LoopNext", "LoopAdvance", PR, CO, CM)),
 ("q10_state_rename", everywhere("State::Var(", "State::Binding(", ST, CO) + [(ST, "    Var(&'a str, ValueCow<'a>),", "    Binding(&'a str, ValueCow<'a>),"), (ST, "Self::Var(ident", "Self::Binding(ident")]),
 ("q10_loop_rename", everywhere("ListBorrowed", "BorrowedList", IT) + everywhere("MapOwned", "OwnedMap", IT)),
 ("q10_frame_order", [(CO, '''        let mut templates = vec![(self.inner.template, self.inner.template_name, 0, false)];''', '''        let mut templates = vec![(0, self.inner.template, false, self.inner.template_name)];'''),
   (CO, "while let Some((t, tname, pc, has_scope)) = templates.last_mut()", "while let Some((pc, t, has_scope, tname)) = templates.last_mut()"),
   (CO, "templates.push((template, Some(template_name.as_str()), 0, false));", "templates.push((0, template, false, Some(template_name.as_str())));"),
   (CO, "templates.push((template, Some(template_name.as_str()), 0, true));", "templates.push((0, template, true, Some(template_name.as_str())));")]),
 ("q10_inner_rename", everywhere("RendererInner", "RenderOptions", RM, CO)),
 ("q10_err_span", [(ER, "span: impl Into<Span>", "@ALLspan: Span"), (ER, "span.into()", "@ALLspan"), (PA, "n..n)", "Span::from(n..n))"), (PA, "                        m..m + 1,", "                        Span::from(m..m + 1),"), (PA, "                            i..j,", "                            Span::from(i..j),"), (LX, "self.source, span)", "@ALLself.source, span.into())")]),
 ("q10_lookup_method", [(RV, '''/// Lookup the given path, return None''', '''impl<'a> ValueCow<'a> {
    /// The member the path names.
    pub fn walk(&self, source: &str, path: &[ast::Member]) -> Result<ValueCow<'a>> {
        lookup_path(source, self, path)
    }

    /// The member the path names, none when not even the first is known.
    pub fn walk_maybe(&self, source: &str, path: &[ast::Member]) -> Result<Option<ValueCow<'a>>> {
        lookup_path_maybe(source, self, path)
    }
}

/// Lookup the given path, return None'''), (ST, "lookup_path_maybe(source, scope, &v.path)?", "scope.walk_maybe(source, &v.path)?"),
   (ST, "return lookup_path(source, var, v.rest());", "return var.walk(source, v.rest());"), (ST, "use crate::render::value::{lookup_path, lookup_path_maybe};\n", "")]),
 ("q10_lookup_module", [(RM, "mod value;\n", "mod access;\nmod value;\n"), (IT, "use crate::render::value::lookup;", "use crate::render::access::lookup;"),
   (RV, "use crate::value::ValueCow;\nuse crate::{Error, Result, Value};", "use crate::render::access::lookup;\nuse crate::value::ValueCow;\nuse crate::{Result, Value};"),
   (RV, '''/// Access the given member from the value.
pub fn lookup<'a>(
    source: &str,
    value: &'a Value,
    member: &ast::Member,
) -> Result<Option<&'a Value>> {
    match (value, &member.access) {
        (Value::List(list), ast::Access::Index(index)) => {
            let ast::Index { value: i, .. } = index;
            match (&member.op, list.get(*i)) {
                (_, Some(value)) => Ok(Some(value)),
                (ast::AccessOp::Optional, _) => Ok(None),
                (ast::AccessOp::Direct, _) => {
                    let len = list.len();
                    Err(Error::render(
                        format!("index out of bounds, the length is {len}"),
                        source,
                        member.span,
                    ))
                }
            }
        }
        (Value::Map(map), ast::Access::Key(ident)) => {
            let ast::Ident { span } = ident;
            match (&member.op, map.get(&source[*span])) {
                (_, Some(value)) => Ok(Some(value)),
                (ast::AccessOp::Optional, _) => Ok(None),
                (ast::AccessOp::Direct, _) => {
                    Err(Error::render("not found in map", source, member.span))
                }
            }
        }
        (value, ast::Access::Index(_)) => Err(Error::render(
            format!("{} does not support integer-based access", value.human()),
            source,
            member.span,
        )),
        (value, ast::Access::Key(_)) => Err(Error::render(
            format!("{} does not support key-based access", value.human()),
            source,
            member.span,
        )),
    }
}
''', ''), ("src/render/access.rs", "", '''use crate::types::ast;
use crate::{Error, Result, Value};

/// Access the given member from the value.
pub fn lookup<'a>(
    source: &str,
    value: &'a Value,
    member: &ast::Member,
) -> Result<Option<&'a Value>> {
    let err = |reason: String| Error::render(reason, source, member.span);
    let found = match (&member.access, value) {
        (ast::Access::Index(index), Value::List(list)) => match list.get(index.value) {
            None => Err(format!("index out of bounds, the length is {}", list.len())),
            Some(v) => Ok(v),
        },
        (ast::Access::Key(ident), Value::Map(map)) => {
            map.get(&source[ident.span]).ok_or_else(|| "not found in map".to_string())
        }
        (ast::Access::Index(_), v) => {
            return Err(err(format!("{} does not support integer-based access", v.human())));
        }
        (ast::Access::Key(_), v) => {
            return Err(err(format!("{} does not support key-based access", v.human())));
        }
    };
    match (found, &member.op) {
        (Ok(v), _) => Ok(Some(v)),
        (Err(_), ast::AccessOp::Optional) => Ok(None),
        (Err(reason), ast::AccessOp::Direct) => Err(err(reason)),
    }
}
''')]),
 ("q10_state_resolve", [(ST, '''        for state in self.stack.iter().rev() {
            match state {
                State::ValueFn(value_fn) => {
                    let path''', '''        for state in self.stack.iter().rev() {
            match state.resolve(source, v)? {
                Hit::Found(value) => return Ok(value),
                Hit::Below => {}
                Hit::End => break,
            }
        }
        Err(Error::render(
            "not found in this scope",
            source,
            v.first().span,
        ))
    }

    pub fn push(&mut self, state: State<'a>) {
        self.stack.push(state);
    }

    pub fn last_loop_state_mut(&mut self) -> &mut LoopState<'a> {
        match self.stack.last_mut().unwrap() {
            State::Loop(loop_state) => loop_state,
            _ => panic!("expected loop state"),
        }
    }

    pub fn pop_scope(&mut self) -> ValueCow<'a> {
        match self.stack.pop().unwrap() {
            State::Scope(globals) => globals,
            _ => panic!("expected scope"),
        }
    }

    pub fn pop_var(&mut self) -> (&'a str, ValueCow<'a>) {
        match self.stack.pop().unwrap() {
            State::Var(name, value) => (name, value),
            _ => panic!("expected variable"),
        }
    }

    pub fn pop_loop_state(&mut self) -> LoopState<'a> {
        match self.stack.pop().unwrap() {
            State::Loop(state) => state,
            _ => panic!("expected loop state"),
        }
    }

    pub fn pop_boundary(&mut self) {
        match self.stack.pop().unwrap() {
            State::Boundary => {}
            _ => panic!("expected boundary"),
        }
    }
}

enum Hit<'a> {
    Found(ValueCow<'a>),
    Below,
    End,
}

impl<'a> State<'a> {
    fn resolve(&self, source: &str, v: &ast::Var) -> Result<Hit<'a>> {
        let found = {
            match self {
                State::ValueFn(value_fn) => {
                    let path'''), (ST, '''                    return value_fn(&path)
                        .map(ValueCow::Owned)
                        .map_err(|reason| Error::render(reason, source, v.span()));
                }

                State::Scope(scope) => match lookup_path_maybe(source, scope, &v.path)? {
                    Some(value) => return Ok(value),
                    None => continue,
                },

                State::Var(name, var) if source[v.first().access.span()] == **name => {
                    return lookup_path(source, var, v.rest());
                }

                State::Loop(loop_state) => {
                    if let Some(value) = loop_state.lookup_var(source, v)? {
                        return Ok(value);
                    }
                }

                State::Boundary => {
                    // We've reached the template boundary stop searching
                    break;
                }

                _ => {}
            }
        }
        Err(Error::render(
            "not found in this scope",
            source,
            v.first().span,
        ))
    }

    pub fn push(&mut self, state: State<'a>) {
        self.stack.push(state);
    }

    pub fn last_loop_state_mut(&mut self) -> &mut LoopState<'a> {
        match self.stack.last_mut().unwrap() {
            State::Loop(loop_state) => loop_state,
            _ => panic!("expected loop state"),
        }
    }

    pub fn pop_scope(&mut self) -> ValueCow<'a> {
        match self.stack.pop().unwrap() {
            State::Scope(globals) => globals,
            _ => panic!("expected scope"),
        }
    }

    pub fn pop_var(&mut self) -> (&'a str, ValueCow<'a>) {
        match self.stack.pop().unwrap() {
            State::Var(name, value) => (name, value),
            _ => panic!("expected variable"),
        }
    }

    pub fn pop_loop_state(&mut self) -> LoopState<'a> {
        match self.stack.pop().unwrap() {
            State::Loop(state) => state,
            _ => panic!("expected loop state"),
        }
    }

    pub fn pop_boundary(&mut self) {
        match self.stack.pop().unwrap() {
            State::Boundary => {}
            _ => panic!("expected boundary"),
        }
    }
}''', '''                    let value = value_fn(&path)
                        .map_err(|reason| Error::render(reason, source, v.span()))?;
                    Some(ValueCow::Owned(value))
                }
                State::Scope(scope) => lookup_path_maybe(source, scope, &v.path)?,
                State::Var(name, var) if source[v.first().access.span()] == **name => {
                    Some(lookup_path(source, var, v.rest())?)
                }
                State::Var(..) => None,
                State::Loop(loop_state) => loop_state.lookup_var(source, v)?,
                State::Boundary => return Ok(Hit::End),
            }
        };
        Ok(match found {
            Some(value) => Hit::Found(value),
            None => Hit::Below,
        })
    }
}''')]),
 ("q10_pc_field", [(CO, '''        pc: &mut usize,
    ) -> Result<RenderState<'render, 'stack>> {''', '''        at: &mut usize,
    ) -> Result<RenderState<'render, 'stack>> {
        let pc = at;'''), ]),
 ("q10_lookup_pair", [(IT, '''                ("index", Value::Integer(i as i64)),
                ("first", Value::Bool(i == 0)),
                ("last", Value::Bool(rem == 0)),
            ]))));''', '''                ("last", Value::Bool(rem == 0)),
                ("first", Value::Bool(i == 0)),
                ("index", Value::Integer(i as i64)),
            ]))));''')]),
 ("q10_var_path_rename", [(AS, "pub path: Vec<Member>", "pub members: Vec<Member>")] + everywhere("self.path", "self.members", AS) + everywhere("v.path", "v.members", ST) + everywhere("var.path", "var.members", IT) + [(PA, "Ok(ast::Var { path })", "Ok(ast::Var { members: path })"), (ST, "                        .path\n", "                        .members\n")]),
]
