"""Behaviour-preserving edits: (name, [(file, old, new), ...])"""
RV, RC, RS, RI, RM = "src/render/value.rs", "src/render/core.rs", "src/render/stack.rs", "src/render/iter.rs", "src/render/mod.rs"
CM, LX, PA = "src/compile/mod.rs", "src/compile/lex.rs", "src/compile/parse.rs"
FM, ER, LB, FI, FA = "src/fmt.rs", "src/error.rs", "src/lib.rs", "src/filters/mod.rs", "src/filters/args.rs"
TS, TA, SP = "src/types/syntax.rs", "src/types/ast.rs", "src/types/span.rs"
VF, VC, VS, VM, VL, VV = "src/value/from.rs", "src/value/cow.rs", "src/value/ser/mod.rs", "src/value/ser/map.rs", "src/value/ser/list.rs", "src/value/ser/variants.rs"

E = [
 ("as_bool_ifchain", [(RV, '''        match &**self {
            Value::None | Value::Bool(false) | Value::Integer(0) => false,
            Value::Float(n) if *n == 0.0 => false,
            Value::String(s) if s.is_empty() => false,
            Value::List(l) if l.is_empty() => false,
            Value::Map(m) if m.is_empty() => false,
            _ => true,
        }''', '''        match &**self {
            Value::None => false,
            Value::Bool(b) => *b,
            Value::Integer(n) => *n != 0,
            Value::Float(n) => *n != 0.0,
            Value::String(s) => !s.is_empty(),
            Value::List(l) => l.len() > 0,
            Value::Map(m) => !m.is_empty(),
        }''')]),
 ("as_bool_helper", [(RV, '''    pub fn as_bool(&self) -> bool {
        match &**self {
            Value::None | Value::Bool(false) | Value::Integer(0) => false,
            Value::Float(n) if *n == 0.0 => false,
            Value::String(s) if s.is_empty() => false,
            Value::List(l) if l.is_empty() => false,
            Value::Map(m) if m.is_empty() => false,
            _ => true,
        }
    }
}
''', '''    pub fn as_bool(&self) -> bool {
        !is_falsy(self)
    }
}

fn is_falsy(value: &Value) -> bool {
    matches!(value, Value::None | Value::Bool(false) | Value::Integer(0))
        || match value {
            Value::Float(n) => *n == 0.0,
            Value::String(s) => s.is_empty(),
            Value::List(l) => l.is_empty(),
            Value::Map(m) => m.is_empty(),
            _ => false,
        }
}
''')]),
 ("lookup_path_shared", [(RV, '''    match value {
        ValueCow::Borrowed(mut value) => {
            for p in path {
                match lookup(source, value, p)? {
                    Some(v) => value = v,
                    None => return Ok(ValueCow::Borrowed(&Value::None)),
                }
            }
            Ok(ValueCow::Borrowed(value))
        }
        ValueCow::Owned(value) => {
            let mut value: &Value = value;
            for p in path {
                match lookup(source, value, p)? {
                    Some(v) => value = v,
                    None => return Ok(ValueCow::Borrowed(&Value::None)),
                }
            }
            Ok(ValueCow::Owned(value.clone()))
        }
    }
}
''', '''    match value {
        ValueCow::Borrowed(value) => match walk(source, value, path)? {
            Some(v) => Ok(ValueCow::Borrowed(v)),
            None => Ok(ValueCow::Borrowed(&Value::None)),
        },
        ValueCow::Owned(value) => match walk(source, value, path)? {
            Some(v) => Ok(ValueCow::Owned(v.clone())),
            None => Ok(ValueCow::Borrowed(&Value::None)),
        },
    }
}

fn walk<'v>(source: &str, value: &'v Value, path: &[ast::Member]) -> Result<Option<&'v Value>> {
    let mut value = value;
    for p in path {
        match lookup(source, value, p)? {
            Some(v) => value = v,
            None => return Ok(None),
        }
    }
    Ok(Some(value))
}
''')]),
 ("lookup_maybe_split", [(RV, '''        ValueCow::Borrowed(mut value) => {
            for (i, p) in path.iter().enumerate() {
                match lookup(source, value, p) {
                    Ok(Some(v)) => value = v,
                    Ok(None) | Err(_) if i == 0 => return Ok(None),
                    Ok(None) => return Ok(Some(ValueCow::Borrowed(&Value::None))),
                    Err(err) => return Err(err),
                };
            }
            Ok(Some(ValueCow::Borrowed(value)))
        }''', '''        ValueCow::Borrowed(mut value) => {
            for (i, p) in path.iter().enumerate() {
                let found = lookup(source, value, p);
                if i == 0 && !matches!(found, Ok(Some(_))) {
                    return Ok(None);
                }
                match found? {
                    Some(v) => value = v,
                    None => return Ok(Some(ValueCow::Borrowed(&Value::None))),
                }
            }
            Ok(Some(ValueCow::Borrowed(value)))
        }''')]),
 ("lookup_nested", [(RV, '''        (Value::List(list), ast::Access::Index(index)) => {
            let ast::Index { value: i, .. } = index;
            match (&member.op, list.get(*i)) {
                (_, Some(value)) => Ok(Some(value)),
                (ast::AccessOp::Optional, _) => Ok(None),
                (ast::AccessOp::Direct, _) => {
                    let len = list.len();
                    Err(Error::render(
                        format!("index out of bounds, the length is {len}"),
                        source,
                        member.span,
                    ))
                }
            }
        }''', '''        (Value::List(list), ast::Access::Index(index)) => {
            let i = index.value;
            if i < list.len() {
                return Ok(Some(&list[i]));
            }
            match member.op {
                ast::AccessOp::Optional => Ok(None),
                ast::AccessOp::Direct => {
                    let len = list.len();
                    Err(Error::render(
                        format!("index out of bounds, the length is {len}"),
                        source,
                        member.span,
                    ))
                }
            }
        }''')]),
 ("lookup_or_else", [(RV, '''            match (&member.op, map.get(&source[*span])) {
                (_, Some(value)) => Ok(Some(value)),
                (ast::AccessOp::Optional, _) => Ok(None),
                (ast::AccessOp::Direct, _) => {
                    Err(Error::render("not found in map", source, member.span))
                }
            }''', '''            let key = &source[*span];
            if let Some(value) = map.get(key) {
                Ok(Some(value))
            } else if matches!(member.op, ast::AccessOp::Optional) {
                Ok(None)
            } else {
                Err(Error::render("not found in map", source, member.span))
            }''')]),
 ("render_match_instr_helper", [(RC, '''                Instr::LoopStart(vars, span) => {
                    let iterable = expr.take().unwrap();
                    self.stack.push(State::Loop(LoopState::new(
                        &t.source, vars, iterable, *span,
                    )?));
                }
''', '''                Instr::LoopStart(vars, span) => {
                    let iterable = expr.take().unwrap();
                    self.start_loop(&t.source, vars, iterable, *span)?;
                }
'''), (RC, '''    fn get_template(
        &mut self,''', '''    fn start_loop(
        &mut self,
        source: &'render str,
        vars: &'render ast::LoopVars,
        iterable: ValueCow<'stack>,
        span: crate::types::span::Span,
    ) -> Result<()> {
        let state = LoopState::new(source, vars, iterable, span)?;
        self.stack.push(State::Loop(state));
        Ok(())
    }

    fn get_template(
        &mut self,''')]),
 ("render_jump_merge", [(RC, '''                Instr::JumpIfTrue(j) => {
                    if expr.take().unwrap().as_bool() {
                        *pc = *j;
                        continue;
                    }
                }

                Instr::JumpIfFalse(j) => {
                    if !expr.take().unwrap().as_bool() {
                        *pc = *j;
                        continue;
                    }
                }
''', '''                Instr::JumpIfTrue(j) | Instr::JumpIfFalse(j) => {
                    let want = matches!(instr, Instr::JumpIfTrue(_));
                    let cond = expr.take().unwrap().as_bool();
                    if cond == want {
                        *pc = *j;
                        continue;
                    }
                }
''')]),
 ("render_with_name_helper", [(RC, '''                            .map_err(|e| match tname {
                                Some(s) => e.with_template_name(s.to_owned()),
                                None => e,
                            })?;
                    templates.push((template, Some(template_name.as_str()), 0, false));''', '''                            .map_err(|e| named(e, *tname))?;
                    templates.push((template, Some(template_name.as_str()), 0, false));'''), (RC, '''                            .map_err(|e| match tname {
                                Some(s) => e.with_template_name(s.to_owned()),
                                None => e,
                            })?;
                    self.stack.push(State::Boundary);''', '''                            .map_err(|e| named(e, *tname))?;
                    self.stack.push(State::Boundary);'''), (RC, '''            let state = self.render_one(f, t, pc).map_err(|e| match tname {
                Some(s) => e.with_template_name(s.to_owned()),
                None => e,
            })?;''', '''            let state = self
                .render_one(f, t, pc)
                .map_err(|e| named(e, *tname))?;'''), (RC, '', '''
/// Attaches the template name if there is one.
fn named(err: Error, name: Option<&str>) -> Error {
    match name {
        Some(name) => err.with_template_name(name.to_owned()),
        None => err,
    }
}
''')]),
 ("render_depth_first", [(RC, '''            if templates.len() > max_include_depth {
                return Err(Error::max_include_depth(max_include_depth));
            }
        }

        Ok(())''', '''            let depth = templates.len();
            if depth <= max_include_depth {
                continue;
            }
            return Err(Error::max_include_depth(max_include_depth));
        }

        Ok(())''')]),
 ("render_one_loop_form", [(RC, '''        while let Some(instr) = t.instrs.get(*pc) {
            match instr {''', '''        while *pc < t.instrs.len() {
            let instr = &t.instrs[*pc];
            match instr {''')]),
 ("get_template_match", [(RC, '''        if let Some(template_fn) = &mut self.inner.template_fn {
            template_fn(name.as_str())
                .map(|t| &t.template)
                .map_err(|e| Error::render(e, source, name.span))
        } else {
            self.inner
                .engine
                .templates
                .get(name.as_str())
                .ok_or_else(|| Error::render("unknown template", source, name.span))
        }''', '''        match self.inner.template_fn.as_mut() {
            Some(template_fn) => match template_fn(name.as_str()) {
                Ok(t) => Ok(&t.template),
                Err(e) => Err(Error::render(e, source, name.span)),
            },
            None => match self.inner.engine.templates.get(name.as_str()) {
                Some(t) => Ok(t),
                None => Err(Error::render("unknown template", source, name.span)),
            },
        }''')]),
 ("emit_reorder", [(RC, '''                Instr::Emit(span) => {
                    let value = expr.take().unwrap();
                    (self.inner.engine.default_formatter)(f, &value)
                        .map_err(|err| Error::format(err, &t.source, *span))?;
                }
''', '''                Instr::Emit(span) => {
                    let formatter = self.inner.engine.default_formatter;
                    let value = expr.take().unwrap();
                    if let Err(err) = formatter(f, &value) {
                        return Err(Error::format(err, &t.source, *span));
                    }
                }
''')]),
 ("apply_args_match", [(RC, '''                            let args = _args
                                .as_ref()
                                .map(|args| args.values.as_slice())
                                .unwrap_or(&[]);''', '''                            let args: &[ast::BaseExpr] = match _args {
                                Some(args) => &args.values,
                                None => &[],
                            };''')]),
 ("stack_pop_helper", [(RS, '''    pub fn pop_scope(&mut self) -> ValueCow<'a> {
        match self.stack.pop().unwrap() {
            State::Scope(globals) => globals,
            _ => panic!("expected scope"),
        }
    }''', '''    pub fn pop_scope(&mut self) -> ValueCow<'a> {
        let top = self.stack.pop().unwrap();
        if let State::Scope(globals) = top {
            globals
        } else {
            panic!("expected scope")
        }
    }''')]),
 ("stack_lookup_helper", [(RS, '''                    let path: Vec<_> = v
                        .path
                        .iter()
                        .map(|member| {
                            let op = match member.op {
                                ast::AccessOp::Direct => ValueAccessOp::Direct,
                                ast::AccessOp::Optional => ValueAccessOp::Optional,
                            };
                            let access = match member.access {
                                ast::Access::Index(a) => ValueAccess::Index(a.value),
                                ast::Access::Key(a) => ValueAccess::Key(&source[a.span]),
                            };
                            ValueMember { op, access }
                        })
                        .collect();
                    return''', '''                    let path: Vec<_> = v.path.iter().map(|m| to_member(source, m)).collect();
                    return'''), (RS, '', '''
fn to_member<'s>(source: &'s str, member: &ast::Member) -> ValueMember<'s> {
    let access = match member.access {
        ast::Access::Key(ident) => ValueAccess::Key(&source[ident.span]),
        ast::Access::Index(index) => ValueAccess::Index(index.value),
    };
    let op = match member.op {
        ast::AccessOp::Direct => ValueAccessOp::Direct,
        ast::AccessOp::Optional => ValueAccessOp::Optional,
    };
    ValueMember { op, access }
}
''')]),
 ("stack_lookup_for_path", [(RS, '''                    let path: Vec<_> = v
                        .path
                        .iter()
                        .map(|member| {
                            let op''', '''                    let mut path = Vec::with_capacity(v.path.len());
                    for member in &v.path {
                            let op'''), (RS, '''                            ValueMember { op, access }
                        })
                        .collect();''', '''                            path.push(ValueMember { op, access });
                        }''')]),
 ("stack_lookup_iflet", [(RS, '''                State::Scope(scope) => match lookup_path_maybe(source, scope, &v.path)? {
                    Some(value) => return Ok(value),
                    None => continue,
                },
''', '''                State::Scope(scope) => {
                    if let Some(value) = lookup_path_maybe(source, scope, &v.path)? {
                        return Ok(value);
                    }
                }
''')]),
 ("stack_var_guard", [(RS, '''                State::Var(name, var) if source[v.first().access.span()] == **name => {
                    return lookup_path(source, var, v.rest());
                }
''', '''                State::Var(name, var) => {
                    let first = v.first();
                    let wanted = &source[first.access.span()];
                    if wanted == *name {
                        return lookup_path(source, var, v.rest());
                    }
                }
'''), (RS, '''                    break;
                }

                _ => {}
            }''', '''                    break;
                }
            }''')]),
 ("stack_names_outside", [(RS, '''        for state in self.stack.iter().rev() {
            match state {''', '''        let mut i = self.stack.len();
        while i > 0 {
            i -= 1;
            match &self.stack[i] {'''), ]),
 ("iterate_merge", [(RI, '''        match self {
            Self::ListBorrowed { iter, value, .. } => {
                *value = Some(iter.next()?);
            }
            Self::ListOwned { iter, value, .. } => {
                *value = Some(iter.next()?);
            }
            Self::MapBorrowed { iter, value, .. } => {
                *value = Some(iter.next()?);
            }
            Self::MapOwned { iter, value, .. } => {
                *value = Some(iter.next()?);
            }
        }
        Some(())''', '''        match self {
            Self::ListBorrowed { iter, value, .. } => match iter.next() {
                Some(item) => *value = Some(item),
                None => return None,
            },
            Self::ListOwned { iter, value, .. } => {
                let item = iter.next()?;
                *value = Some(item);
            }
            Self::MapBorrowed { iter, value, .. } => {
                *value = Some(iter.next()?);
            }
            Self::MapOwned { iter, value, .. } => {
                *value = Some(iter.next()?);
            }
        }
        Some(())''')]),
 ("lookup_loop_reorder", [(RI, '''        let (i, rem) = match self.current_index_and_rem() {
            Some((i, rem)) => (i, rem),
            None => return Ok(None),
        };

        if path.len() == 1 {
            return Ok(Some(ValueCow::Owned(Value::from([
                ("index", Value::Integer(i as i64)),
                ("first", Value::Bool(i == 0)),
                ("last", Value::Bool(rem == 0)),
            ]))));
        }

        let member = &path[1];
''', '''        let (i, rem) = if let Some(state) = self.current_index_and_rem() {
            state
        } else {
            return Ok(None);
        };
        let (first, last) = (i == 0, rem == 0);

        let member = match path.get(1) {
            Some(member) => member,
            None => {
                return Ok(Some(ValueCow::Owned(Value::from([
                    ("index", Value::Integer(i as i64)),
                    ("first", Value::Bool(first)),
                    ("last", Value::Bool(last)),
                ]))))
            }
        };
''')]),
 ("lookup_loop_last", [(RI, '''        if !path[2..].is_empty() {
            return Err(Error::render(
                format!("cannot index into {}", v.human()),
                source,
                path[2].span,
            ));
        }
''', '''        if let Some(extra) = path.get(2) {
            return Err(Error::render(
                format!("cannot index into {}", v.human()),
                source,
                extra.span,
            ));
        }
''')]),
 ("loopstate_new_helper", [(RI, '''        let unpack_list_item = |vars: &'a ast::LoopVars| match vars {
            ast::LoopVars::Item(item) => Ok(item),
            ast::LoopVars::KeyValue(kv) => Err(Error::render(
                "cannot unpack list item into two variables",
                source,
                kv.span,
            )),
        };
''', '''        let unpack_list_item = |vars: &'a ast::LoopVars| list_item(source, vars);
'''), (RI, '', '''
fn list_item<'a>(source: &str, vars: &'a ast::LoopVars) -> Result<&'a ast::Ident> {
    match vars {
        ast::LoopVars::KeyValue(kv) => Err(Error::render(
            "cannot unpack list item into two variables",
            source,
            kv.span,
        )),
        ast::LoopVars::Item(item) => Ok(item),
    }
}
''')]),
 ("loop_lookup_var_fn", [(RI, '''        macro_rules! resolve {
            ($v:expr) => {{
                let mut v = $v;
                for m in var.rest() {
                    v = match lookup(source, v, m)? {
                        Some(v) => v,
                        None => return Ok(Some(ValueCow::Owned(Value::None))),
                    };
                }
                v
            }};
        }
''', '''        macro_rules! resolve {
            ($v:expr) => {{
                match resolve_path(source, $v, var.rest())? {
                    Some(v) => v,
                    None => return Ok(Some(ValueCow::Owned(Value::None))),
                }
            }};
        }
'''), (RI, '', '''
fn resolve_path<'v>(
    source: &str,
    mut v: &'v Value,
    path: &[ast::Member],
) -> Result<Option<&'v Value>> {
    for m in path {
        match lookup(source, v, m)? {
            Some(next) => v = next,
            None => return Ok(None),
        }
    }
    Ok(Some(v))
}
''')]),
 ("compile_if_restructure", [(CM, '''                match else_branch {
                    Some(else_branch) => {
                        // else branch
                        let j2 = self.push(Instr::Jump(FIXME));
                        self.update_jump(j);
                        self.compile_scope(else_branch);
                        self.update_jump(j2)
                    }
                    None => {
                        self.update_jump(j);
                    }
                }''', '''                if let Some(else_branch) = else_branch {
                    let end = self.push(Instr::Jump(FIXME));
                    self.update_jump(j);
                    self.compile_scope(else_branch);
                    self.update_jump(end);
                } else {
                    self.update_jump(j);
                }''')]),
 ("compile_for_helper", [(CM, '''            ast::Stmt::ForLoop(ast::ForLoop {
                vars,
                iterable,
                body,
            }) => {
                let span = iterable.span();
                self.compile_expr(iterable);
                self.push(Instr::LoopStart(vars, span));
                let j = self.push(Instr::LoopNext(FIXME));
                self.compile_scope(body);
                self.push(Instr::Jump(j));
                self.update_jump(j);
            }
''', '''            ast::Stmt::ForLoop(for_loop) => self.compile_for_loop(for_loop),
'''), (CM, '''    fn compile_expr(&mut self''', '''    fn compile_for_loop(&mut self, for_loop: ast::ForLoop) {
        let ast::ForLoop {
            vars,
            iterable,
            body,
        } = for_loop;
        let span = iterable.span();
        self.compile_expr(iterable);
        self.push(Instr::LoopStart(vars, span));
        let next = self.push(Instr::LoopNext(FIXME));
        self.compile_scope(body);
        self.push(Instr::Jump(next));
        self.update_jump(next);
    }

    fn compile_expr(&mut self''')]),
 ("compile_scope_iter", [(CM, '''        for stmt in scope.stmts {
            self.compile_stmt(stmt);
        }''', '''        scope.stmts.into_iter().for_each(|stmt| self.compile_stmt(stmt));''')]),
 ("compile_pop_emit", [(CM, '''        let emit = match self.instrs.last() {
            Some(Instr::Apply(_, _, None)) => {
                let instr = self.instrs.pop().unwrap();
                match instr {
                    Instr::Apply(ident, _, _) => Instr::EmitWith(ident, span),
                    _ => unreachable!(),
                }
            }
            _ => Instr::Emit(span),
        };
        self.push(emit);''', '''        let name = match self.instrs.last() {
            Some(Instr::Apply(ident, _, None)) => Some(*ident),
            _ => None,
        };
        if let Some(ident) = name {
            self.instrs.pop();
            self.push(Instr::EmitWith(ident, span));
        } else {
            self.push(Instr::Emit(span));
        }''')]),
 ("compile_not_swap", [(CM, '''                let instr = if not {
                    Instr::JumpIfTrue(FIXME)
                } else {
                    Instr::JumpIfFalse(FIXME)
                };
                let j = self.push(instr);''', '''                let j = match not {
                    false => self.push(Instr::JumpIfFalse(FIXME)),
                    true => self.push(Instr::JumpIfTrue(FIXME)),
                };''')]),
 ("compile_push_len", [(CM, '''        let i = self.instrs.len();
        self.instrs.push(instr);
        i
''', '''        self.instrs.push(instr);
        self.instrs.len() - 1
''')]),
 ("update_jump_getmut", [(CM, '''        let n = self.instrs.len();
        let j = match &mut self.instrs[i] {
            Instr::Jump(j) | Instr::JumpIfTrue(j) | Instr::JumpIfFalse(j) | Instr::LoopNext(j) => j,
            _ => panic!("not a jump instr"),
        };
        *j = n;''', '''        let target = self.instrs.len();
        match &mut self.instrs[i] {
            Instr::LoopNext(j) | Instr::Jump(j) => *j = target,
            Instr::JumpIfTrue(j) | Instr::JumpIfFalse(j) => *j = target,
            _ => panic!("not a jump instr"),
        }''')]),
]
