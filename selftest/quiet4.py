CO = "src/render/core.rs"
ST = "src/render/stack.rs"
IT = "src/render/iter.rs"
RV = "src/render/value.rs"
CM = "src/compile/mod.rs"
LX = "src/compile/lex.rs"
PA = "src/compile/parse.rs"
AS = "src/types/ast.rs"
SY = "src/types/syntax.rs"
SP = "src/types/span.rs"
AB = "src/compile/search/ahocorasick/build.rs"
AC = "src/compile/search/ahocorasick/mod.rs"
SE = "src/compile/search/mod.rs"
ER = "src/error.rs"
E = [
 ("core_take_helper", [(CO, 'expr.take().unwrap()', 'take(&mut expr)', 0),
   (CO, '''#[cfg_attr(internal_debug, derive(Debug))]
enum RenderState''', '''/// Takes the value of the expression that was just built.
fn take<'a>(expr: &mut Option<ValueCow<'a>>) -> ValueCow<'a> {
    expr.take().expect("an expression")
}

#[cfg_attr(internal_debug, derive(Debug))]
enum RenderState''')]),
 ("core_emit_helper", [(CO, '''                    (self.inner.engine.default_formatter)(f, &value)
                        .map_err(|err| Error::format(err, &t.source, *span))?;
''', '''                    self.emit(f, &value, &t.source, *span)?;
'''), (CO, '''                            (self.inner.engine.default_formatter)(f, &result)
                                .map_err(|err| Error::format(err, &t.source, *_span))?;
''', '''                            self.emit(f, &result, &t.source, *_span)?;
'''), (CO, '''    fn get_template(
''', '''    fn emit(
        &self,
        f: &mut Formatter<'_>,
        value: &crate::Value,
        source: &str,
        span: crate::types::span::Span,
    ) -> Result<()> {
        match (self.inner.engine.default_formatter)(f, value) {
            Ok(()) => Ok(()),
            Err(err) => Err(Error::format(err, source, span)),
        }
    }

    fn get_template(
''')]),
 ("core_local_pc", [(CO, '''        while let Some(instr) = t.instrs.get(*pc) {
            match instr {
                Instr::Jump(j) => {
                    *pc = *j;
                    continue;
                }

                Instr::JumpIfTrue(j) => {
                    if expr.take().unwrap().as_bool() {
                        *pc = *j;
                        continue;
                    }
                }

                Instr::JumpIfFalse(j) => {
                    if !expr.take().unwrap().as_bool() {
                        *pc = *j;
                        continue;
                    }
                }
''', '''        while let Some(instr) = t.instrs.get(*pc) {
            let mut next = *pc + 1;
            match instr {
                Instr::Jump(j) => next = *j,

                Instr::JumpIfTrue(j) => {
                    if expr.take().unwrap().as_bool() {
                        next = *j;
                    }
                }

                Instr::JumpIfFalse(j) => {
                    if !expr.take().unwrap().as_bool() {
                        next = *j;
                    }
                }
'''), (CO, '''                        self.stack.pop_loop_state();
                        *pc = *j;
                        continue;
''', '''                        self.stack.pop_loop_state();
                        next = *j;
'''), (CO, '''                    *pc += 1;
                    return Ok(RenderState::Include { template_name });''', '''                    *pc = next;
                    return Ok(RenderState::Include { template_name });'''),
   (CO, '''                    *pc += 1;
                    let globals = expr.take().unwrap();''', '''                    let globals = expr.take().unwrap();
                    *pc = next;'''),
   (CO, '''            *pc += 1;
        }

        assert!''', '''            *pc = next;
        }

        assert!''')]),
 ("core_while_len", [(CO, '''        while let Some(instr) = t.instrs.get(*pc) {
            match instr {''', '''        let instrs = t.instrs.as_slice();
        while *pc < instrs.len() {
            match &instrs[*pc] {''')]),
 ("core_enrich_closure", [(CO, '''        while let Some((t, tname, pc, has_scope)) = templates.last_mut() {
            let state = self.render_one(f, t, pc).map_err(|e| match tname {
                Some(s) => e.with_template_name(s.to_owned()),
                None => e,
            })?;
''', '''        let named = |name: Option<&str>| {
            let name = name.map(str::to_owned);
            move |e: Error| match name {
                Some(s) => e.with_template_name(s),
                None => e,
            }
        };

        while let Some((t, tname, pc, has_scope)) = templates.last_mut() {
            let state = self.render_one(f, t, pc).map_err(named(*tname))?;
'''), (CO, '''                        self.get_template(&t.source, template_name)
                            .map_err(|e| match tname {
                                Some(s) => e.with_template_name(s.to_owned()),
                                None => e,
                            })?;
''', '''                        self.get_template(&t.source, template_name).map_err(named(*tname))?;
''', 0)]),
 ("core_depth_var", [(CO, '''            if templates.len() > max_include_depth {
                return Err(Error::max_include_depth(max_include_depth));
            }
''', '''            let depth = templates.len();
            if depth <= max_include_depth {
                continue;
            }
            return Err(Error::max_include_depth(max_include_depth));
''')]),
 ("core_depth_match", [(CO, '''        let max_include_depth = self
            .inner
            .max_include_depth
            .unwrap_or(self.inner.engine.max_include_depth);
''', '''        let max_include_depth = match self.inner.max_include_depth {
            Some(depth) => depth,
            None => self.inner.engine.max_include_depth,
        };
''')]),
 ("core_filter_helper", [(CO, '''                            let mut value = expr.take().unwrap();
                            let result = filter(FilterState {
                                stack: &self.stack,
                                source: &t.source,
                                filter: name,
                                value: &mut value,
                                args: &[],
                            })
                            .map_err(|err| err.enrich(&t.source, name.span))?;
''', '''                            let mut value = expr.take().unwrap();
                            let result = Self::call_filter(&self.stack, filter, &t.source, name, &mut value, &[])?;
'''), (CO, '''                            let mut value = expr.take().unwrap();
                            let args = _args
                                .as_ref()
                                .map(|args| args.values.as_slice())
                                .unwrap_or(&[]);
                            let result = filter(FilterState {
                                stack: &self.stack,
                                source: &t.source,
                                filter: name,
                                value: &mut value,
                                args,
                            })
                            .map_err(|e| e.enrich(&t.source, name.span))?;
                            expr.replace(ValueCow::Owned(result));
''', '''                            let mut value = expr.take().unwrap();
                            let args = match _args {
                                Some(args) => args.values.as_slice(),
                                None => &[],
                            };
                            let result = Self::call_filter(&self.stack, filter, &t.source, name, &mut value, args)?;
                            expr = Some(ValueCow::Owned(result));
'''), (CO, '''    fn get_template(
''', '''    #[cfg(feature = "filters")]
    fn call_filter<'a>(
        stack: &'a Stack<'a>,
        filter: &crate::filters::FilterFn,
        source: &'a str,
        name: &'a ast::Ident,
        value: &'a mut ValueCow<'a>,
        args: &'a [ast::BaseExpr],
    ) -> Result<crate::Value> {
        filter(FilterState {
            stack,
            source,
            filter: name,
            value,
            args,
        })
        .map_err(|err| err.enrich(source, name.span))
    }

    fn get_template(
''')]),
 ("core_function_lookup", [(CO, '''                    let name_raw = &t.source[name.span];
                    match self.inner.engine.functions.get(name_raw) {
''', '''                    match self.function(&t.source, name) {
''', 0), (CO, '''    fn get_template(
''', '''    fn function(&self, source: &str, name: &ast::Ident) -> Option<&'render EngineBoxFn> {
        let name = &source[name.span];
        self.inner.engine.functions.get(name)
    }

    fn get_template(
''')]),
 ("core_instr_reorder", [(CO, '''                Instr::WithEnd => {
                    self.stack.pop_var();
                }

''', ''), (CO, '''                Instr::Jump(j) => {
                    *pc = *j;
                    continue;
                }
''', '''                Instr::WithEnd => {
                    let _ = self.stack.pop_var();
                }

                Instr::Jump(j) => {
                    *pc = *j;
                    continue;
                }
''')]),
 ("stack_valuefn_helper", [(ST, '''                    return value_fn(&path)
                        .map(ValueCow::Owned)
                        .map_err(|reason| Error::render(reason, source, v.span()));
''', '''                    return match value_fn(&path) {
                        Ok(value) => Ok(ValueCow::Owned(value)),
                        Err(reason) => Err(Error::render(reason, source, v.span())),
                    };
''')]),
 ("stack_path_vec_push", [(ST, '''                    let path: Vec<_> = v
                        .path
                        .iter()
                        .map(|member| {
                            let op = match member.op {
                                ast::AccessOp::Direct => ValueAccessOp::Direct,
                                ast::AccessOp::Optional => ValueAccessOp::Optional,
                            };
                            let access = match member.access {
                                ast::Access::Index(a) => ValueAccess::Index(a.value),
                                ast::Access::Key(a) => ValueAccess::Key(&source[a.span]),
                            };
                            ValueMember { op, access }
                        })
                        .collect();
''', '''                    let mut path = Vec::with_capacity(v.path.len());
                    for member in &v.path {
                        let access = match member.access {
                            ast::Access::Key(ident) => ValueAccess::Key(&source[ident.span]),
                            ast::Access::Index(index) => ValueAccess::Index(index.value),
                        };
                        let op = if matches!(member.op, ast::AccessOp::Direct) {
                            ValueAccessOp::Direct
                        } else {
                            ValueAccessOp::Optional
                        };
                        path.push(ValueMember { op, access });
                    }
''')]),
 ("stack_scope_iflet", [(ST, '''                State::Scope(scope) => match lookup_path_maybe(source, scope, &v.path)? {
                    Some(value) => return Ok(value),
                    None => continue,
                },
''', '''                State::Scope(scope) => {
                    let found = lookup_path_maybe(source, scope, &v.path)?;
                    if let Some(value) = found {
                        return Ok(value);
                    }
                }
''')]),
 ("stack_var_explicit", [(ST, '''                State::Var(name, var) if source[v.first().access.span()] == **name => {
                    return lookup_path(source, var, v.rest());
                }
''', '''                State::Var(name, var) => {
                    let first = &source[v.first().access.span()];
                    if first == *name {
                        return lookup_path(source, var, v.rest());
                    }
                }
'''), (ST, '''                    break;
                }

                _ => {}
''', '''                    break;
                }
''')]),
 ("stack_boundary_err", [(ST, '''                    // We've reached the template boundary stop searching
                    break;
''', '''                    // We've reached the template boundary stop searching
                    return Err(not_found(source, v));
'''), (ST, '''        Err(Error::render(
            "not found in this scope",
            source,
            v.first().span,
        ))
    }
''', '''        Err(not_found(source, v))
    }
'''), (ST, '''impl<'a> Stack<'a> {
    pub fn new''', '''fn not_found(source: &str, v: &ast::Var) -> Error {
    Error::render("not found in this scope", source, v.first().span)
}

impl<'a> Stack<'a> {
    pub fn new''')]),
 ("stack_pop_else", [(ST, '''        match self.stack.pop().unwrap() {
            State::Scope(globals) => globals,
            _ => panic!("expected scope"),
        }''', '''        let state = self.stack.pop().unwrap();
        let State::Scope(globals) = state else {
            panic!("expected scope");
        };
        globals'''), (ST, '''        match self.stack.pop().unwrap() {
            State::Boundary => {}
            _ => panic!("expected boundary"),
        }''', '''        let popped = self.stack.pop();
        assert!(matches!(popped, Some(State::Boundary)), "expected boundary");''')]),
 ("iter_new_flat", [(IT, '''        let human = iterable.human();
        let err = || {
            Error::render(
                format!("expected iterable, but expression evaluated to {human}"),
                source,
                span,
            )
        };

''', ''), (IT, '''        match iterable {
            ValueCow::Borrowed(v) => match v {
                Value::List(list) => {
                    let item = unpack_list_item(vars)?;
                    Ok(Self::ListBorrowed {
                        i: &source[item.span],
                        iter: list.iter().enumerate(),
                        value: None,
                    })
                }

                Value::Map(map) => {
                    let kv = unpack_map_item(vars)?;
                    Ok(Self::MapBorrowed {
                        k: &source[kv.key.span],
                        v: &source[kv.value.span],
                        iter: map.iter().enumerate(),
                        value: None,
                    })
                }
                _ => Err(err()),
            },

            ValueCow::Owned(v) => match v {
                Value::List(list) => {
                    let item = unpack_list_item(vars)?;
                    Ok(Self::ListOwned {
                        i: &source[item.span],
                        iter: list.into_iter().enumerate(),
                        value: None,
                    })
                }

                Value::Map(map) => {
                    let kv = unpack_map_item(vars)?;
                    Ok(Self::MapOwned {
                        k: &source[kv.key.span],
                        v: &source[kv.value.span],
                        iter: map.into_iter().enumerate(),
                        value: None,
                    })
                }
                _ => Err(err()),
            },
        }
''', '''        match iterable {
            ValueCow::Borrowed(Value::List(list)) => {
                let item = unpack_list_item(vars)?;
                Ok(Self::ListBorrowed {
                    i: &source[item.span],
                    iter: list.iter().enumerate(),
                    value: None,
                })
            }
            ValueCow::Owned(Value::List(list)) => {
                let item = unpack_list_item(vars)?;
                Ok(Self::ListOwned {
                    i: &source[item.span],
                    iter: list.into_iter().enumerate(),
                    value: None,
                })
            }
            ValueCow::Borrowed(Value::Map(map)) => {
                let kv = unpack_map_item(vars)?;
                Ok(Self::MapBorrowed {
                    k: &source[kv.key.span],
                    v: &source[kv.value.span],
                    iter: map.iter().enumerate(),
                    value: None,
                })
            }
            ValueCow::Owned(Value::Map(map)) => {
                let kv = unpack_map_item(vars)?;
                Ok(Self::MapOwned {
                    k: &source[kv.key.span],
                    v: &source[kv.value.span],
                    iter: map.into_iter().enumerate(),
                    value: None,
                })
            }
            other => Err(Error::render(
                format!(
                    "expected iterable, but expression evaluated to {}",
                    other.human()
                ),
                source,
                span,
            )),
        }
''')]),
 ("iter_lookup_loop_slices", [(IT, '''        if path.len() == 1 {
            return''', '''        let [_, member, rest @ ..] = path else {
            return'''), (IT, '''                ("last", Value::Bool(rem == 0)),
            ]))));
        }

        let member = &path[1];
''', '''                ("last", Value::Bool(rem == 0)),
            ]))));
        };
'''), (IT, '''        if !path[2..].is_empty() {
            return Err(Error::render(
                format!("cannot index into {}", v.human()),
                source,
                path[2].span,
            ));
        }
''', '''        if let Some(extra) = rest.first() {
            return Err(Error::render(
                format!("cannot index into {}", v.human()),
                source,
                extra.span,
            ));
        }
''')]),
 ("iter_index_vars", [(IT, '''        if path.len() == 1 {
            return Ok(Some(ValueCow::Owned(Value::from([
                ("index", Value::Integer(i as i64)),
                ("first", Value::Bool(i == 0)),
                ("last", Value::Bool(rem == 0)),
            ]))));
        }
''', '''        let index = Value::Integer(i as i64);
        let first = Value::Bool(i == 0);
        let last = Value::Bool(rem == 0);

        if path.len() == 1 {
            let fields = [("index", index), ("first", first), ("last", last)];
            return Ok(Some(ValueCow::Owned(Value::from(fields))));
        }
'''), (IT, '''            (_, "index") => Value::Integer(i as i64),
            (_, "first") => Value::Bool(i == 0),
            (_, "last") => Value::Bool(rem == 0),
''', '''            (_, "index") => index,
            (_, "first") => first,
            (_, "last") => last,
''')]),
 ("iter_iterate_if", [(IT, '''            Self::ListBorrowed { iter, value, .. } => {
                *value = Some(iter.next()?);
            }
            Self::ListOwned { iter, value, .. } => {
                *value = Some(iter.next()?);
            }
''', '''            Self::ListBorrowed { iter, value, .. } => {
                let next = iter.next();
                if next.is_none() {
                    return None;
                }
                *value = next;
            }
            Self::ListOwned { iter, value, .. } => match iter.next() {
                Some(next) => {
                    value.replace(next);
                }
                None => return None,
            },
''')]),
 ("iter_key_rest", [(IT, '''                if let [m, ..] = var.rest() {
                    return Err(err(m.span));
                }
                Ok(Some(ValueCow::Owned(Value::String((*string).clone()))))
''', '''                match var.rest().first() {
                    Some(m) => Err(err(m.span)),
                    None => Ok(Some(ValueCow::Owned(Value::String((*string).clone())))),
                }
''')]),
 ("value_lookup_bind", [(RV, '''            let ast::Index { value: i, .. } = index;
            match (&member.op, list.get(*i)) {
                (_, Some(value)) => Ok(Some(value)),
                (ast::AccessOp::Optional, _) => Ok(None),
                (ast::AccessOp::Direct, _) => {
                    let len = list.len();
                    Err(Error::render(
                        format!("index out of bounds, the length is {len}"),
                        source,
                        member.span,
                    ))
                }
            }
''', '''            let found = list.get(index.value);
            if found.is_some() || matches!(member.op, ast::AccessOp::Optional) {
                return Ok(found);
            }
            Err(Error::render(
                format!("index out of bounds, the length is {}", list.len()),
                source,
                member.span,
            ))
''')]),
 ("value_as_bool_not", [(RV, '''        match &**self {
            Value::None | Value::Bool(false) | Value::Integer(0) => false,
            Value::Float(n) if *n == 0.0 => false,
            Value::String(s) if s.is_empty() => false,
            Value::List(l) if l.is_empty() => false,
            Value::Map(m) if m.is_empty() => false,
            _ => true,
        }
''', '''        match &**self {
            Value::None => false,
            Value::Bool(b) => *b,
            Value::Integer(i) => *i != 0,
            Value::Float(n) => *n != 0.0,
            Value::String(s) => !s.is_empty(),
            Value::List(l) => !l.is_empty(),
            Value::Map(m) => !m.is_empty(),
        }
''')]),
 ("value_maybe_peel", [(RV, '''        ValueCow::Owned(value) => {
            let mut value: &Value = value;
            for (i, p) in path.iter().enumerate() {
                match lookup(source, value, p) {
                    Ok(Some(v)) => value = v,
                    Ok(None) | Err(_) if i == 0 => return Ok(None),
                    Ok(None) => return Ok(Some(ValueCow::Borrowed(&Value::None))),
                    Err(err) => return Err(err),
                };
            }
            Ok(Some(ValueCow::Owned(value.clone())))
        }
''', '''        ValueCow::Owned(owned) => {
            let mut value: &Value = owned;
            let mut first = true;
            for p in path {
                value = match lookup(source, value, p) {
                    Ok(Some(v)) => v,
                    _ if first => return Ok(None),
                    Ok(None) => return Ok(Some(ValueCow::Borrowed(&Value::None))),
                    Err(err) => return Err(err),
                };
                first = false;
            }
            Ok(Some(ValueCow::Owned(value.clone())))
        }
''')]),
 ("comp_helpers", [(CM, '''                self.compile_expr(cond);

                // then branch
                let instr = if not {
                    Instr::JumpIfTrue(FIXME)
                } else {
                    Instr::JumpIfFalse(FIXME)
                };
                let j = self.push(instr);
                self.compile_scope(then_branch);

                match else_branch {
                    Some(else_branch) => {
                        // else branch
                        let j2 = self.push(Instr::Jump(FIXME));
                        self.update_jump(j);
                        self.compile_scope(else_branch);
                        self.update_jump(j2)
                    }
                    None => {
                        self.update_jump(j);
                    }
                }
''', '''                self.compile_if(not, cond, then_branch, else_branch);
'''), (CM, '''    fn compile_expr(&mut self''', '''    fn compile_if(
        &mut self,
        not: bool,
        cond: ast::Expr,
        then_branch: ast::Scope,
        else_branch: Option<ast::Scope>,
    ) {
        self.compile_expr(cond);
        let skip_then = self.push(match not {
            true => Instr::JumpIfTrue(FIXME),
            false => Instr::JumpIfFalse(FIXME),
        });
        self.compile_scope(then_branch);
        if let Some(else_branch) = else_branch {
            let skip_else = self.push(Instr::Jump(FIXME));
            self.update_jump(skip_then);
            self.compile_scope(else_branch);
            self.update_jump(skip_else);
        } else {
            self.update_jump(skip_then);
        }
    }

    fn compile_expr(&mut self''')]),
 ("comp_include_instr", [(CM, '''            ast::Stmt::Include(ast::Include { name, globals }) => match globals {
                Some(globals) => {
                    self.compile_expr(globals);
                    self.push(Instr::IncludeWith(name));
                }
                None => {
                    self.push(Instr::Include(name));
                }
            },
''', '''            ast::Stmt::Include(include) => {
                let instr = if let Some(globals) = include.globals {
                    self.compile_expr(globals);
                    Instr::IncludeWith(include.name)
                } else {
                    Instr::Include(include.name)
                };
                self.push(instr);
            }
''')]),
 ("comp_emit_matches", [(CM, '''        let emit = match self.instrs.last() {
            Some(Instr::Apply(_, _, None)) => {
                let instr = self.instrs.pop().unwrap();
                match instr {
                    Instr::Apply(ident, _, _) => Instr::EmitWith(ident, span),
                    _ => unreachable!(),
                }
            }
            _ => Instr::Emit(span),
        };
        self.push(emit);
''', '''        if let Some(Instr::Apply(ident, _, None)) = self.instrs.last() {
            let ident = *ident;
            self.instrs.pop();
            self.push(Instr::EmitWith(ident, span));
        } else {
            self.push(Instr::Emit(span));
        }
''')]),
 ("comp_template_let", [(CM, '''        let ast::Template { scope } = template;
        self.compile_scope(scope);
        Template {
            source,
            instrs: self.instrs,
        }
''', '''        self.compile_scope(template.scope);
        let Self { instrs } = self;
        Template { source, instrs }
''')]),
 ("comp_foreach", [(CM, '''        for stmt in scope.stmts {
            self.compile_stmt(stmt);
        }
''', '''        let ast::Scope { stmts } = scope;
        stmts.into_iter().for_each(|stmt| self.compile_stmt(stmt));
''')]),
 ("lex_number_for", [(LX, '''        let j = loop {
            match iter.next() {
                // A sign can be part of the number but not if it is the start
                // of a tag, e.g. `-}}`.
                Some((j, '-' | '+'))
                    if self.engine.searcher.starts_with(self.source, j).is_some() =>
                {
                    break j;
                }
                Some((_, c)) if is_number(c) => {}
                Some((j, _)) => break j,
                None => break self.source.len(),
            }
        };
        (Token::Number, j)
''', '''        for (j, c) in iter.by_ref() {
            // A sign can be part of the number but not if it is the start
            // of a tag, e.g. `-}}`.
            let is_tag = matches!(c, '-' | '+')
                && self.engine.searcher.starts_with(self.source, j).is_some();
            if is_tag || !is_number(c) {
                return (Token::Number, j);
            }
        }
        (Token::Number, self.source.len())
''')]),
 ("lex_string_while", [(LX, '''        let mut escaped = false;
        loop {
            match iter.next() {
                None => {
                    return Err(self.err_undelimited_string(i..self.source.len()));
                }
                Some((j, '\\r' | '\\n')) => {
                    return Err(self.err_undelimited_string(i..j));
                }
                Some((j, '"')) if !escaped => {
                    return Ok((Token::String, j + 1));
                }
                Some((_, c)) => {
                    escaped = c == '\\\\' && !escaped;
                }
            }
        }
''', '''        let mut escaped = false;
        while let Some((j, c)) = iter.next() {
            match c {
                '\\r' | '\\n' => return Err(self.err_undelimited_string(i..j)),
                '"' if !escaped => return Ok((Token::String, j + 1)),
                '\\\\' => escaped = !escaped,
                _ => escaped = false,
            }
        }
        Err(self.err_undelimited_string(i..self.source.len()))
''')]),
 ("lex_trim_helper_fns", [(LX, '''            if right_trim {
                j = i + self.source[i..j].trim_end().len();
            }
            if self.left_trim {
                self.left_trim = false;
                let s = &self.source[i..j];
                i += s.len() - s.trim_start().len();
            }
''', '''            if right_trim {
                j = trimmed_end(self.source, i, j);
            }
            if self.left_trim {
                i = trimmed_start(self.source, i, j);
                self.left_trim = false;
            }
'''), (LX, '''impl Token {
    pub fn human''', '''fn trimmed_end(source: &str, i: usize, j: usize) -> usize {
    i + source[i..j].trim_end().len()
}

fn trimmed_start(source: &str, i: usize, j: usize) -> usize {
    let raw = &source[i..j];
    i + (raw.len() - raw.trim_start().len())
}

impl Token {
    pub fn human''')]),
 ("lex_trim_by_end", [(LX, '''                let s = &self.source[i..j];
                i += s.len() - s.trim_start().len();
''', '''                i = j - self.source[i..j].trim_start().len();
''')]),
 ("lex_end_tag_helper", [(LX, '''                let (tk, trim) = Token::from_kind(kind);

                if tk.is_begin_tag() {
                    return Err(self.err_unclosed(begin, end));
                }
                if tk != end {
                    return Err(self.err_unexpected_token(tk, i..j));
                }
''', '''                let (tk, trim) = self.end_tag(kind, begin, end, i..j)?;
'''), (LX, '''                let (tk, trim) = Token::from_kind(kind);

                if tk.is_begin_tag() {
                    return Err(self.err_unclosed(begin, end));
                }
                if tk != end {
                    return Err(self.err_unexpected_token(tk, j..k));
                }
''', '''                let (tk, trim) = self.end_tag(kind, begin, end, j..k)?;
'''), (LX, '''    fn lex_comment(&mut self''', '''    fn end_tag(
        &self,
        kind: syntax::Kind,
        begin: Span,
        end: Token,
        at: impl Into<Span>,
    ) -> Result<(Token, bool)> {
        match Token::from_kind(kind) {
            (tk, _) if tk.is_begin_tag() => Err(self.err_unclosed(begin, end)),
            (tk, trim) if tk == end => Ok((tk, trim)),
            (tk, _) => Err(self.err_unexpected_token(tk, at)),
        }
    }

    fn lex_comment(&mut self''')]),
 ("lex_kind_split", [(LX, '''    fn from_kind(tk: syntax::Kind) -> (Self, bool) {
        match tk {
            syntax::Kind::BeginExpr => (Self::BeginExpr, false),
            syntax::Kind::EndExpr => (Self::EndExpr, false),
            syntax::Kind::BeginExprTrim => (Self::BeginExpr, true),
            syntax::Kind::EndExprTrim => (Self::EndExpr, true),
            syntax::Kind::BeginBlock => (Self::BeginBlock, false),
            syntax::Kind::EndBlock => (Self::EndBlock, false),
            syntax::Kind::BeginBlockTrim => (Self::BeginBlock, true),
            syntax::Kind::EndBlockTrim => (Self::EndBlock, true),
            syntax::Kind::BeginComment => (Self::BeginComment, false),
            syntax::Kind::EndComment => (Self::EndComment, false),
            syntax::Kind::BeginCommentTrim => (Self::BeginComment, true),
            syntax::Kind::EndCommentTrim => (Self::EndComment, true),
        }
''', '''    fn from_kind(tk: syntax::Kind) -> (Self, bool) {
        use syntax::Kind;
        let trim = matches!(
            tk,
            Kind::BeginExprTrim
                | Kind::EndExprTrim
                | Kind::BeginBlockTrim
                | Kind::EndBlockTrim
                | Kind::BeginCommentTrim
                | Kind::EndCommentTrim
        );
        let tk = match tk {
            Kind::BeginExpr | Kind::BeginExprTrim => Self::BeginExpr,
            Kind::EndExpr | Kind::EndExprTrim => Self::EndExpr,
            Kind::BeginBlock | Kind::BeginBlockTrim => Self::BeginBlock,
            Kind::EndBlock | Kind::EndBlockTrim => Self::EndBlock,
            Kind::BeginComment | Kind::BeginCommentTrim => Self::BeginComment,
            Kind::EndComment | Kind::EndCommentTrim => Self::EndComment,
        };
        (tk, trim)
''')]),
 ("lex_punct_helper", [(LX, '''                    '.' => (Token::Dot, i + 1),
                    '|' => (Token::Pipe, i + 1),
                    ',' => (Token::Comma, i + 1),
                    ':' => (Token::Colon, i + 1),
                    '+' => (Token::Plus, i + 1),
                    '-' => (Token::Minus, i + 1),

''', '''                    '.' | '|' | ',' | ':' | '+' | '-' => (punctuation(c), i + 1),

'''), (LX, '''impl Token {
    pub fn human''', '''fn punctuation(c: char) -> Token {
    match c {
        '.' => Token::Dot,
        '|' => Token::Pipe,
        ',' => Token::Comma,
        ':' => Token::Colon,
        '+' => Token::Plus,
        _ => Token::Minus,
    }
}

impl Token {
    pub fn human''')]),
 ("lex_state_ifs", [(LX, '''        match (block_state, tk) {
            (BlockState::Unknown, Token::Ident) => {
                self.state = State::BlockPath { begin, end };
            }
            (BlockState::Path, Token::Pipe | Token::Comma | Token::Colon | Token::Keyword) => {
                self.state = State::Block { begin, end };
            }
            _ => {}
        }

        // Finally, we need to update the cursor.
        self.cursor = j;
''', '''        self.cursor = j;

        match block_state {
            BlockState::Unknown => {
                if tk == Token::Ident {
                    self.state = State::BlockPath { begin, end };
                }
            }
            BlockState::Path => {
                let leaves = matches!(
                    tk,
                    Token::Keyword | Token::Pipe | Token::Comma | Token::Colon
                );
                if leaves {
                    self.state = State::Block { begin, end };
                }
            }
        }
''')]),
 ("par_accept", [(PA, '''            values.push(self.parse_base_expr()?);
            if !self.is_next(Token::Comma)? {
                break;
            }
            self.expect(Token::Comma)?;
''', '''            values.push(self.parse_base_expr()?);
            if self.accept(Token::Comma)?.is_none() {
                break;
            }
'''), (PA, '''        if !self.is_next(Token::Comma)? {
            return Ok(ast::LoopVars::Item(key));
        }
        self.expect(Token::Comma)?;
''', '''        if self.accept(Token::Comma)?.is_none() {
            return Ok(ast::LoopVars::Item(key));
        }
'''), (PA, '''            let (args, span) = if self.is_next(Token::Colon)? {
                let span = self.expect(Token::Colon)?;
''', '''            let (args, span) = if let Some(span) = self.accept(Token::Colon)? {
'''), (PA, '''    /// Returns a copy of the next token without''', '''    fn accept(&mut self, token: Token) -> Result<Option<Span>> {
        if self.is_next(token)? {
            Ok(Some(self.expect(token)?))
        } else {
            Ok(None)
        }
    }

    /// Returns a copy of the next token without''')]),
 ("par_mark_else", [(PA, '''                            match blocks.last_mut().ok_or_else(err)? {
                                State::If {
                                    has_else: has_else @ false,
                                    ..
                                } => {
                                    *has_else = true;
                                }
                                _ => return Err(err()),
                            }
''', '''                            if !mark_else(blocks.last_mut()) {
                                return Err(err());
                            }
''', 0), (PA, '''#[derive(Clone, Copy)]
enum Sign {''', '''fn mark_else(block: Option<&mut State>) -> bool {
    match block {
        Some(State::If { has_else, .. }) if !*has_else => {
            *has_else = true;
            true
        }
        _ => false,
    }
}

#[derive(Clone, Copy)]
enum Sign {''')]),
 ("par_sign_or", [(PA, '''            (Token::Minus, sign) => {
                let span = self.expect(Token::Number)?;
                let lit =
                    self.parse_literal_number(&self.source()[span], sign.combine(span), Sign::Neg)?;
                ast::BaseExpr::Literal(lit)
            }

            (Token::Plus, sign) => {
                let span = self.expect(Token::Number)?;
                let lit =
                    self.parse_literal_number(&self.source()[span], sign.combine(span), Sign::Pos)?;
                ast::BaseExpr::Literal(lit)
            }
''', '''            (tk @ (Token::Minus | Token::Plus), begin) => {
                let sign = if tk == Token::Minus { Sign::Neg } else { Sign::Pos };
                let span = self.expect(Token::Number)?;
                let raw = &self.source()[span];
                ast::BaseExpr::Literal(self.parse_literal_number(raw, begin.combine(span), sign)?)
            }
''')]),
 ("par_unescape_fn", [(PA, '''                        let c = match esc {
                            'n' => '\\n',
                            'r' => '\\r',
                            't' => '\\t',
                            '\\\\' => '\\\\',
                            '"' => '"',
                            _ => {
                                let j = iter.next().unwrap().0;
                                return Err(Error::syntax(
                                    "unknown escape character",
                                    self.source(),
                                    i..j,
                                ));
                            }
                        };
                        string.push(c);
''', '''                        match unescape(esc) {
                            Some(c) => string.push(c),
                            None => {
                                let j = iter.next().unwrap().0;
                                return Err(Error::syntax(
                                    "unknown escape character",
                                    self.source(),
                                    i..j,
                                ));
                            }
                        }
'''), (PA, '''#[derive(Clone, Copy)]
enum Sign {''', '''const fn unescape(c: char) -> Option<char> {
    Some(match c {
        'n' => '\\n',
        'r' => '\\r',
        't' => '\\t',
        '\\\\' | '"' => c,
        _ => return None,
    })
}

#[derive(Clone, Copy)]
enum Sign {''')]),
 ("par_close_helper", [(PA, '''                            let for_loop = match blocks.pop().ok_or_else(err)? {
                                State::For { vars, iterable, .. } => {
                                    let body = scopes.pop().unwrap();
                                    ast::ForLoop {
                                        vars,
                                        iterable,
                                        body,
                                    }
                                }
                                _ => return Err(err()),
                            };
                            ast::Stmt::ForLoop(for_loop)
''', '''                            let Some(State::For { vars, iterable, .. }) = blocks.pop() else {
                                return Err(err());
                            };
                            ast::Stmt::ForLoop(ast::ForLoop {
                                vars,
                                iterable,
                                body: scopes.pop().unwrap(),
                            })
''')]),
 ("par_if_scope_helper", [(PA, '''                        Block::With(expr, name) => {
                            blocks.push(State::With { expr, name, span });
                            scopes.push(ast::Scope::new());
                            continue;
                        }
''', '''                        Block::With(expr, name) => {
                            scopes.push(ast::Scope::new());
                            blocks.push(State::With { expr, name, span });
                            continue;
                        }
'''), (PA, '''                            scopes.push(ast::Scope::new());
                            scopes.push(ast::Scope::new());
                            continue;
''', '''                            for _ in 0..2 {
                                scopes.push(ast::Scope::new());
                            }
                            continue;
''')]),
 ("par_then_scopes", [(PA, '''        assert!(
            scopes.len() == 1,
            "parser bug: we should end with a single scope"
        );

        Ok(ast::Template {
            scope: scopes.remove(0),
        })
''', '''        let scope = scopes.pop().unwrap();
        assert!(
            scopes.is_empty(),
            "parser bug: we should end with a single scope"
        );

        Ok(ast::Template { scope })
''')]),
 ("par_float_neg", [(PA, '''        let value = match sign {
            Sign::Neg => Value::Float(-float),
            Sign::Pos => Value::Float(float),
        };
''', '''        let value = Value::Float(match sign {
            Sign::Pos => float,
            Sign::Neg => -float,
        });
''')]),
 ("par_int_for", [(PA, '''        let int = digits[i..]
            .iter()
            .enumerate()
            .filter(|(_, &d)| d != b'_')
            .try_fold(0i64, |acc, (j, &d)| {
                let x = (d as char).to_digit(radix).ok_or_else(|| {
                    let m = span.n - raw.len() + i + j;
                    Error::syntax(
                        format!("invalid digit for base {radix} literal"),
                        self.source(),
                        m..m + 1,
                    )
                })?;
                let err = || {
                    Error::syntax(
                        format!("base {radix} literal out of range for 64-bit integer"),
                        self.source(),
                        span,
                    )
                };
                let value = acc.checked_mul(radix.into()).ok_or_else(err)?;
                match sign {
                    Sign::Pos => value.checked_add(x.into()),
                    Sign::Neg => value.checked_sub(x.into()),
                }
                .ok_or_else(err)
            })?;
''', '''        let mut int = 0i64;
        for (j, &d) in digits[i..].iter().enumerate() {
            if d == b'_' {
                continue;
            }
            let Some(x) = char::from(d).to_digit(radix) else {
                let m = span.n - raw.len() + i + j;
                return Err(Error::syntax(
                    format!("invalid digit for base {radix} literal"),
                    self.source(),
                    m..m + 1,
                ));
            };
            let next = int
                .checked_mul(i64::from(radix))
                .and_then(|value| match sign {
                    Sign::Pos => value.checked_add(i64::from(x)),
                    Sign::Neg => value.checked_sub(i64::from(x)),
                });
            int = match next {
                Some(next) => next,
                None => {
                    return Err(Error::syntax(
                        format!("base {radix} literal out of range for 64-bit integer"),
                        self.source(),
                        span,
                    ))
                }
            };
        }
''')]),
 ("ast_var_span", [(AS, '''        self.first().span.combine(self.last().span)
''', '''        let (first, last) = (self.first(), self.last());
        first.span.combine(last.span)
'''), (AS, '''        self.path.first().unwrap()
''', '''        &self.path[0]
''')]),
 ("ast_rest_split", [(AS, '''        &self.path[1..]
''', '''        let (_, rest) = self.path.split_first().unwrap();
        rest
''')]),
 ("span_combine_cmp", [(SP, '''        let m = min(self.m, other.m);
        let n = max(self.n, other.n);
        Self { m, n }
''', '''        Self {
            m: self.m.min(other.m),
            n: self.n.max(other.n),
        }
''')]),
 ("syn_build_helper", [(SY, '''            patterns.push((Kind::BeginBlock, begin.into()));
            patterns.push((Kind::EndBlock, end.into()));
            patterns.push((Kind::BeginBlockTrim, format!("{begin}-")));
            patterns.push((Kind::EndBlockTrim, format!("-{end}")));
''', '''            patterns.extend([
                (Kind::BeginBlock, begin.to_owned()),
                (Kind::EndBlock, end.to_owned()),
                (Kind::BeginBlockTrim, format!("{begin}-")),
                (Kind::EndBlockTrim, format!("-{end}")),
            ]);
''')]),
 ("syn_push_fn", [(SY, '''        if let Some((begin, end)) = self.comment {
            patterns.push((Kind::BeginComment, begin.into()));
            patterns.push((Kind::EndComment, end.into()));
            patterns.push((Kind::BeginCommentTrim, format!("{begin}-")));
            patterns.push((Kind::EndCommentTrim, format!("-{end}")));
        }
''', '''        if let Some((begin, end)) = self.comment {
            let mut add = |kind, pattern: String| patterns.push((kind, pattern));
            add(Kind::BeginComment, begin.to_string());
            add(Kind::EndComment, end.to_string());
            add(Kind::BeginCommentTrim, format!("{begin}-"));
            add(Kind::EndCommentTrim, format!("-{end}"));
        }
''')]),
 ("ac_longest_guard", [(AC, '''            if let Some(m) = self.get_match(state, 0, at) {
                last_match = Some(m);
            }
''', '''            let found = self.get_match(state, 0, at);
            if found.is_some() {
                last_match = found;
            }
''')]),
 ("ac_match_or", [(AC, '''            if let Some(m) = self.get_match(state, 0, at) {
                last_match = Some(m);
            }
''', '''            last_match = self.get_match(state, 0, at).or(last_match);
''')]),
 ("ac_iter_skip", [(AC, '''    pub fn find_at<T>(&self, haystack: T, mut at: usize)''', '''    pub fn find_at<T>(&self, haystack: T, at: usize)'''), (AC, '''        while at < haystack.len() {
            state = self.next_state(state, haystack[at]);
''', '''        for i in at..haystack.len() {
            state = self.next_state(state, haystack[i]);
            let at = i + 1;
'''), (AC, '''            at += 1;

            if state == DEAD''', '''            if state == DEAD''')]),
 ("ac_next_tail", [(AC, '''        loop {
            let state = self.state(id);
            let next = state.next_state(byte);
            if next != FAIL {
                return next;
            }
            id = state.fail;
        }
''', '''        let mut next = self.state(id).next_state(byte);
        while next == FAIL {
            id = self.state(id).fail;
            next = self.state(id).next_state(byte);
        }
        next
''')]),
 ("ac_trie_one", [(AB, '''                let next = self.state(id).next_state(byte);
                if next == FAIL {
                    let next = self.push_state(depth + 1);
                    self.state_mut(id).set_transition(byte, next);
                    id = next;
                } else {
                    id = next;
                }
''', '''                let mut next = self.state(id).next_state(byte);
                if next == FAIL {
                    next = self.push_state(depth + 1);
                    self.state_mut(id).set_transition(byte, next);
                }
                id = next;
''')]),
 ("srch_then", [(SE, '''        let (kind, i, j) = self.find_at(haystack, at)?;
        if at == i {
            Some((kind, j))
        } else {
            None
        }
''', '''        match self.find_at(haystack, at) {
            Some((kind, start, end)) if start == at => Some((kind, end)),
            _ => None,
        }
''')]),
 ("err_base_ctor", [(ER, '''        Self {
            kind: ErrorKind::Format,
            name: None,
            reason: err.message(),
            pretty: Some(Pretty::build(source, span.into())),
        }
''', '''        let pretty = Pretty::build(source, span.into());
        let reason = err.message();
        Self {
            kind: ErrorKind::Format,
            name: None,
            reason,
            pretty: Some(pretty),
        }
''')]),
 ("err_lncol_while", [(ER, '''        let len = line.len() + 1;
        if n + len > offset {
            return (i, display_width(&line[..offset - n]));
        }
        n += len;
''', '''        let end = n + line.len() + 1;
        if offset < end {
            let col = offset - n;
            return (i, display_width(&line[..col]));
        }
        n = end;
''')]),
 ("err_build_text", [(ER, '''        let text = lines
            .get(ln)
            .unwrap_or_else(|| lines.last().unwrap())
            .to_string();
''', '''        let line = match lines.get(ln) {
            Some(line) => line,
            None => lines.last().unwrap(),
        };
        let text = (*line).to_owned();
''')]),
]
E = [(n, [(r[0], r[1], "@ALL" + r[2]) if len(r) == 4 else r for r in reps]) for n, reps in E]
