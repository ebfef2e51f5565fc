"""Behaviour-preserving edits, seventh set: lexer, parser, compiler, interpreter, lookups."""
CO, IT, ST, VA = "src/render/core.rs", "src/render/iter.rs", "src/render/stack.rs", "src/render/value.rs"
LX, PA, CM, SE = "src/compile/lex.rs", "src/compile/parse.rs", "src/compile/mod.rs", "src/compile/search/mod.rs"
E = [
 ("q7_core_name_closure", [(CO, '''            let state = self.render_one(f, t, pc).map_err(|e| match tname {
                Some(s) => e.with_template_name(s.to_owned()),
                None => e,
            })?;
''', '''            let named = |e: Error| match tname {
                Some(s) => e.with_template_name(s.to_string()),
                None => e,
            };
            let state = self.render_one(f, t, pc).map_err(named)?;
''')]),
 ("q7_core_name_free_fn", [(CO, '''            let state = self.render_one(f, t, pc).map_err(|e| match tname {
                Some(s) => e.with_template_name(s.to_owned()),
                None => e,
            })?;
''', '''            let state = self
                .render_one(f, t, pc)
                .map_err(|e| name_error(e, *tname))?;
'''), (CO, '''impl<'render, 'stack> RendererImpl<'render, 'stack>
where''', '''fn name_error(err: Error, name: Option<&str>) -> Error {
    if let Some(name) = name {
        err.with_template_name(name.to_owned())
    } else {
        err
    }
}

impl<'render, 'stack> RendererImpl<'render, 'stack>
where''')]),
 ("q7_core_include_both", [(CO, '''                RenderState::Include { template_name } => {
                    let template =
                        self.get_template(&t.source, template_name)
                            .map_err(|e| match tname {
                                Some(s) => e.with_template_name(s.to_owned()),
                                None => e,
                            })?;
                    templates.push((template, Some(template_name.as_str()), 0, false));
                }
                RenderState::IncludeWith {
                    template_name,
                    globals,
                } => {
                    let template =
                        self.get_template(&t.source, template_name)
                            .map_err(|e| match tname {
                                Some(s) => e.with_template_name(s.to_owned()),
                                None => e,
                            })?;
                    self.stack.push(State::Boundary);
                    self.stack.push(State::Scope(globals));
                    templates.push((template, Some(template_name.as_str()), 0, true));
                }
''', '''                RenderState::Include { template_name } => {
                    let frame = self.frame(t, *tname, template_name, false)?;
                    templates.push(frame);
                }
                RenderState::IncludeWith {
                    template_name,
                    globals,
                } => {
                    let frame = self.frame(t, *tname, template_name, true)?;
                    self.stack.push(State::Boundary);
                    self.stack.push(State::Scope(globals));
                    templates.push(frame);
                }
'''), (CO, '''    fn render_one(
''', '''    fn frame(
        &mut self,
        parent: &'render Template<'render>,
        parent_name: Option<&str>,
        name: &'render ast::String,
        has_scope: bool,
    ) -> Result<(&'render Template<'render>, Option<&'render str>, usize, bool)> {
        match self.get_template(&parent.source, name) {
            Ok(template) => Ok((template, Some(name.as_str()), 0, has_scope)),
            Err(err) => Err(match parent_name {
                Some(s) => err.with_template_name(s.to_owned()),
                None => err,
            }),
        }
    }

    fn render_one(
''')]),
 ("q7_core_depth_let", [(CO, '''        let max_include_depth = self
            .inner
            .max_include_depth
            .unwrap_or(self.inner.engine.max_include_depth);
''', '''        let max_include_depth = if let Some(depth) = self.inner.max_include_depth {
            depth
        } else {
            self.inner.engine.max_include_depth
        };
''')]),
 ("q7_core_depth_cmp", [(CO, '''            if templates.len() > max_include_depth {
                return Err(Error::max_include_depth(max_include_depth));
            }
''', '''            if max_include_depth < templates.len() {
                let err = Error::max_include_depth(max_include_depth);
                return Err(err);
            }
''')]),
 ("q7_core_cond_merge", [(CO, '''                Instr::JumpIfTrue(j) => {
                    if expr.take().unwrap().as_bool() {
                        *pc = *j;
                        continue;
                    }
                }

                Instr::JumpIfFalse(j) => {
                    if !expr.take().unwrap().as_bool() {
                        *pc = *j;
                        continue;
                    }
                }
''', '''                Instr::JumpIfTrue(j) | Instr::JumpIfFalse(j) => {
                    let when = matches!(instr, Instr::JumpIfTrue(_));
                    let cond = expr.take().unwrap().as_bool();
                    if cond == when {
                        *pc = *j;
                        continue;
                    }
                }
''')]),
 ("q7_core_default_emit", [(CO, '''                    let value = expr.take().unwrap();
                    (self.inner.engine.default_formatter)(f, &value)
                        .map_err(|err| Error::format(err, &t.source, *span))?;
                }

                Instr::EmitRaw''', '''                    let value = expr.take().unwrap();
                    self.emit(f, &value, t, *span)?;
                }

                Instr::EmitRaw'''), (CO, '''                            (self.inner.engine.default_formatter)(f, &result)
                                .map_err(|err| Error::format(err, &t.source, *_span))?;
''', '''                            self.emit(f, &result, t, *_span)?;
'''), (CO, '''    fn get_template(
''', '''    fn emit(
        &self,
        f: &mut Formatter<'_>,
        value: &crate::Value,
        t: &Template<'_>,
        span: crate::types::span::Span,
    ) -> Result<()> {
        let format = self.inner.engine.default_formatter;
        format(f, value).map_err(|err| Error::format(err, &t.source, span))
    }

    fn get_template(
''')]),
 ("q7_core_loop_match", [(CO, '''                    if self.stack.last_loop_state_mut().iterate().is_none() {
                        self.stack.pop_loop_state();
                        *pc = *j;
                        continue;
                    }
''', '''                    match self.stack.last_loop_state_mut().iterate() {
                        Some(()) => {}
                        None => {
                            let _ = self.stack.pop_loop_state();
                            *pc = *j;
                            continue;
                        }
                    }
''')]),
 ("q7_core_args_match", [(CO, '''                            let args = _args
                                .as_ref()
                                .map(|args| args.values.as_slice())
                                .unwrap_or(&[]);
''', '''                            let args: &[ast::BaseExpr] = match _args {
                                Some(args) => &args.values,
                                None => &[],
                            };
''')]),
 ("q7_core_apply_set", [(CO, '''                            expr.replace(ValueCow::Owned(result));
''', '''                            expr = Some(ValueCow::Owned(result));
''')]),
 ("q7_core_expr_set", [(CO, '''                    let prev = expr.replace(value);
                    debug_assert!(prev.is_none());
                }

                Instr::ExprStartLit''', '''                    debug_assert!(expr.is_none());
                    expr = Some(value);
                }

                Instr::ExprStartLit''')]),
 ("q7_core_get_template_q", [(CO, '''            template_fn(name.as_str())
                .map(|t| &t.template)
                .map_err(|e| Error::render(e, source, name.span))
        } else {''', '''            let t = template_fn(name.as_str()).map_err(|e| Error::render(e, source, name.span))?;
            Ok(&t.template)
        } else {''')]),
 ("q7_core_get_template_ifnone", [(CO, '''            self.inner
                .engine
                .templates
                .get(name.as_str())
                .ok_or_else(|| Error::render("unknown template", source, name.span))
''', '''            let engine = self.inner.engine;
            if let Some(template) = engine.templates.get(name.as_str()) {
                return Ok(template);
            }
            Err(Error::render("unknown template", source, name.span))
''')]),
 ("q7_core_loopstart_let", [(CO, '''                    self.stack.push(State::Loop(LoopState::new(
                        &t.source, vars, iterable, *span,
                    )?));
''', '''                    let state = LoopState::new(&t.source, vars, iterable, *span)?;
                    self.stack.push(State::Loop(state));
''')]),
 ("q7_iter_iterate_map", [(IT, '''            Self::ListBorrowed { iter, value, .. } => {
                *value = Some(iter.next()?);
            }
''', '''            Self::ListBorrowed { iter, value, .. } => match iter.next() {
                Some(next) => *value = Some(next),
                None => return None,
            },
''')]),
 ("q7_iter_iterate_replace", [(IT, '''            Self::MapOwned { iter, value, .. } => {
                *value = Some(iter.next()?);
            }
''', '''            Self::MapOwned { iter, value, .. } => {
                let next = iter.next()?;
                value.replace(next);
            }
''')]),
 ("q7_iter_unpack_fn", [(IT, '''        let unpack_list_item = |vars: &'a ast::LoopVars| match vars {
            ast::LoopVars::Item(item) => Ok(item),
            ast::LoopVars::KeyValue(kv) => Err(Error::render(
                "cannot unpack list item into two variables",
                source,
                kv.span,
            )),
        };

''', '''        fn unpack_list_item<'v>(
            source: &str,
            vars: &'v ast::LoopVars,
        ) -> Result<&'v ast::Ident> {
            match vars {
                ast::LoopVars::Item(item) => Ok(item),
                ast::LoopVars::KeyValue(kv) => Err(Error::render(
                    "cannot unpack list item into two variables",
                    source,
                    kv.span,
                )),
            }
        }

'''), (IT, '''                    let item = unpack_list_item(vars)?;
                    Ok(Self::ListBorrowed {''', '''                    let item = unpack_list_item(source, vars)?;
                    Ok(Self::ListBorrowed {'''), (IT, '''                    let item = unpack_list_item(vars)?;
                    Ok(Self::ListOwned {''', '''                    let item = unpack_list_item(source, vars)?;
                    Ok(Self::ListOwned {''')]),
 ("q7_iter_name_let_else", [(IT, '''        let name = match var.first().access {
            ast::Access::Index(_) => return Ok(None),
            ast::Access::Key(ast::Ident { span }) => &source[span],
        };

        if name == "loop" {
            return self.lookup_loop(source, &var.path);
        }
''', '''        let ast::Access::Key(ident) = var.first().access else {
            return Ok(None);
        };
        let name = &source[ident.span];

        if name == "loop" {
            return self.lookup_loop(source, &var.path);
        }
''')]),
 ("q7_iter_resolve_trait", [(IT, '''                let mut v = $v;
                for m in var.rest() {
                    v = match lookup(source, v, m)? {
                        Some(v) => v,
                        None => return Ok(Some(ValueCow::Owned(Value::None))),
                    };
                }
                v
''', '''                match lookup_rest(source, $v, var.rest())? {
                    Some(v) => v,
                    None => return Ok(Some(ValueCow::Owned(Value::None))),
                }
'''), (IT, '''impl<'a> LoopState<'a> {
    /// Constructs the initial loop state.
    pub fn new(''', '''fn lookup_rest<'v>(
    source: &str,
    value: &'v Value,
    rest: &[ast::Member],
) -> Result<Option<&'v Value>> {
    let mut value = value;
    for member in rest {
        match lookup(source, value, member)? {
            Some(v) => value = v,
            None => return Ok(None),
        }
    }
    Ok(Some(value))
}

impl<'a> LoopState<'a> {
    /// Constructs the initial loop state.
    pub fn new(''')]),
 ("q7_iter_key_first", [(IT, '''                if let [m, ..] = var.rest() {
                    return Err(err(m.span));
                }
                Ok(Some(ValueCow::Owned(Value::String((*string).clone()))))
''', '''                match var.rest().first() {
                    Some(m) => Err(err(m.span)),
                    None => Ok(Some(ValueCow::Owned(Value::String(string.to_string())))),
                }
''')]),
 ("q7_iter_loop_get", [(IT, '''        let (i, rem) = match self.current_index_and_rem() {
            Some((i, rem)) => (i, rem),
            None => return Ok(None),
        };

        if path.len() == 1 {
            return''', '''        let Some((i, rem)) = self.current_index_and_rem() else {
            return Ok(None);
        };

        if path.get(1).is_none() {
            return''')]),
 ("q7_iter_loop_third", [(IT, '''        if !path[2..].is_empty() {
            return Err(Error::render(
                format!("cannot index into {}", v.human()),
                source,
                path[2].span,
            ));
        }

        Ok(Some(ValueCow::Owned(v)))
''', '''        match path.get(2) {
            None => Ok(Some(ValueCow::Owned(v))),
            Some(extra) => Err(Error::render(
                format!("cannot index into {}", v.human()),
                source,
                extra.span,
            )),
        }
''')]),
 ("q7_iter_loop_vals", [(IT, '''        let v = match (&member.op, name) {
            (_, "index") => Value::Integer(i as i64),
            (_, "first") => Value::Bool(i == 0),
            (_, "last") => Value::Bool(rem == 0),
            (ast::AccessOp::Optional, _) => return Ok(Some(ValueCow::Owned(Value::None))),
            (ast::AccessOp::Direct, _) => {
                return Err(Error::render("not found in map", source, member.span))
            }
        };
''', '''        let v = match name {
            "index" => Value::Integer(i as i64),
            "first" => Value::from(i == 0),
            "last" => Value::from(rem == 0),
            _ => {
                return match member.op {
                    ast::AccessOp::Optional => Ok(Some(ValueCow::Owned(Value::None))),
                    ast::AccessOp::Direct => {
                        Err(Error::render("not found in map", source, member.span))
                    }
                };
            }
        };
''')]),
 ("q7_iter_rem_or", [(IT, '''            LoopState::ListBorrowed {
                iter,
                value: Some((i, _)),
                ..
            } => Some((*i, iter.len())),
            LoopState::ListOwned {
                iter,
                value: Some((i, _)),
                ..
            } => Some((*i, iter.len())),
''', '''            LoopState::ListBorrowed { iter, value, .. } => {
                value.as_ref().map(|(i, _)| (*i, iter.len()))
            }
            LoopState::ListOwned { iter, value, .. } => {
                let (i, _) = value.as_ref()?;
                Some((*i, iter.len()))
            }
''')]),
 ("q7_stack_pop_helper", [(ST, '''        match self.stack.pop().unwrap() {
            State::Scope(globals) => globals,
            _ => panic!("expected scope"),
        }
''', '''        if let State::Scope(globals) = self.pop() {
            globals
        } else {
            panic!("expected scope")
        }
'''), (ST, '''        match self.stack.pop().unwrap() {
            State::Var(name, value) => (name, value),
            _ => panic!("expected variable"),
        }
''', '''        match self.pop() {
            State::Var(name, value) => (name, value),
            _ => panic!("expected variable"),
        }
'''), (ST, '''    pub fn push(&mut self, state: State<'a>) {''', '''    fn pop(&mut self) -> State<'a> {
        self.stack.pop().expect("stack is empty")
    }

    pub fn push(&mut self, state: State<'a>) {''')]),
 ("q7_stack_member_from", [(ST, '''                        .map(|member| {
                            let op = match member.op {
                                ast::AccessOp::Direct => ValueAccessOp::Direct,
                                ast::AccessOp::Optional => ValueAccessOp::Optional,
                            };
                            let access = match member.access {
                                ast::Access::Index(a) => ValueAccess::Index(a.value),
                                ast::Access::Key(a) => ValueAccess::Key(&source[a.span]),
                            };
                            ValueMember { op, access }
                        })
''', '''                        .map(|member| value_member(source, member))
'''), (ST, '''impl<'a> Stack<'a> {
    pub fn new''', '''fn value_member<'s>(source: &'s str, member: &ast::Member) -> ValueMember<'s> {
    ValueMember {
        op: match member.op {
            ast::AccessOp::Direct => ValueAccessOp::Direct,
            ast::AccessOp::Optional => ValueAccessOp::Optional,
        },
        access: match &member.access {
            ast::Access::Index(a) => ValueAccess::Index(a.value),
            ast::Access::Key(a) => ValueAccess::Key(&source[a.span]),
        },
    }
}

impl<'a> Stack<'a> {
    pub fn new''')]),
 ("q7_stack_scope_q", [(ST, '''                State::Scope(scope) => match lookup_path_maybe(source, scope, &v.path)? {
                    Some(value) => return Ok(value),
                    None => continue,
                },
''', '''                State::Scope(scope) => {
                    let found = lookup_path_maybe(source, scope, &v.path)?;
                    if let Some(value) = found {
                        return Ok(value);
                    }
                }
''')]),
 ("q7_stack_loop_transpose", [(ST, '''                    if let Some(value) = loop_state.lookup_var(source, v)? {
                        return Ok(value);
                    }
''', '''                    match loop_state.lookup_var(source, v) {
                        Ok(Some(value)) => return Ok(value),
                        Ok(None) => {}
                        Err(err) => return Err(err),
                    }
''')]),
 ("q7_stack_takewhile", [(ST, '''                State::Boundary => {
                    // We've reached the template boundary stop searching
                    break;
                }

                _ => {}
            }
        }
        Err(Error::render(
            "not found in this scope",
            source,
            v.first().span,
        ))
''', '''                State::Boundary => {
                    return Err(not_found(source, v));
                }

                State::Var(..) => {}
            }
        }
        Err(not_found(source, v))
'''), (ST, '''impl<'a> Stack<'a> {
    pub fn new''', '''fn not_found(source: &str, v: &ast::Var) -> Error {
    let span = v.first().span;
    Error::render("not found in this scope", source, span)
}

impl<'a> Stack<'a> {
    pub fn new''')]),
 ("q7_val_lookup_path_shared", [(VA, '''    match value {
        ValueCow::Borrowed(mut value) => {
            for p in path {
                match lookup(source, value, p)? {
                    Some(v) => value = v,
                    None => return Ok(ValueCow::Borrowed(&Value::None)),
                }
            }
            Ok(ValueCow::Borrowed(value))
        }
        ValueCow::Owned(value) => {
            let mut value: &Value = value;
            for p in path {
                match lookup(source, value, p)? {
                    Some(v) => value = v,
                    None => return Ok(ValueCow::Borrowed(&Value::None)),
                }
            }
            Ok(ValueCow::Owned(value.clone()))
        }
    }
''', '''    match value {
        ValueCow::Borrowed(value) => match follow(source, value, path)? {
            Some(v) => Ok(ValueCow::Borrowed(v)),
            None => Ok(ValueCow::Borrowed(&Value::None)),
        },
        ValueCow::Owned(value) => match follow(source, value, path)? {
            Some(v) => Ok(ValueCow::Owned(v.clone())),
            None => Ok(ValueCow::Borrowed(&Value::None)),
        },
    }
'''), (VA, '''pub fn lookup_path<'a>(''', '''fn follow<'v>(
    source: &str,
    mut value: &'v Value,
    path: &[ast::Member],
) -> Result<Option<&'v Value>> {
    for member in path {
        value = match lookup(source, value, member)? {
            Some(v) => v,
            None => return Ok(None),
        };
    }
    Ok(Some(value))
}

pub fn lookup_path<'a>(''')]),
 ("q7_val_lookup_fold", [(VA, '''            let mut value: &Value = value;
            for p in path {
                match lookup(source, value, p)? {
                    Some(v) => value = v,
                    None => return Ok(ValueCow::Borrowed(&Value::None)),
                }
            }
            Ok(ValueCow::Owned(value.clone()))
''', '''            let mut value: &Value = value;
            let mut members = path.iter();
            while let Some(member) = members.next() {
                if let Some(v) = lookup(source, value, member)? {
                    value = v;
                } else {
                    return Ok(ValueCow::Borrowed(&Value::None));
                }
            }
            Ok(ValueCow::Owned(value.to_owned()))
''')]),
 ("q7_val_lookup_bool", [(VA, '''            match (&member.op, list.get(*i)) {
                (_, Some(value)) => Ok(Some(value)),
                (ast::AccessOp::Optional, _) => Ok(None),
                (ast::AccessOp::Direct, _) => {
                    let len = list.len();
''', '''            if let Some(value) = list.get(*i) {
                return Ok(Some(value));
            }
            match member.op {
                ast::AccessOp::Optional => Ok(None),
                ast::AccessOp::Direct => {
                    let len = list.len();
''')]),
 ("q7_val_lookup_index", [(VA, '''            match (&member.op, list.get(*i)) {
                (_, Some(value)) => Ok(Some(value)),
''', '''            match (&member.op, (*i < list.len()).then(|| &list[*i])) {
                (_, Some(value)) => Ok(Some(value)),
''')]),
 ("q7_val_as_bool_arms", [(VA, '''            Value::None | Value::Bool(false) | Value::Integer(0) => false,
            Value::Float(n) if *n == 0.0 => false,
            Value::String(s) if s.is_empty() => false,
            Value::List(l) if l.is_empty() => false,
            Value::Map(m) if m.is_empty() => false,
            _ => true,
''', '''            Value::None => false,
            Value::Bool(b) => *b,
            Value::Integer(i) => *i != 0,
            Value::Float(n) => *n != 0.0,
            Value::String(s) => !s.is_empty(),
            Value::List(l) => !l.is_empty(),
            Value::Map(m) => !m.is_empty(),
''')]),
 ("q7_cm_template_inline", [(CM, '''        let ast::Template { scope } = template;
        self.compile_scope(scope);
        Template {
''', '''        for stmt in template.scope.stmts {
            self.compile_stmt(stmt);
        }
        Template {
''')]),
 ("q7_cm_ifelse_fn", [(CM, '''                // then branch
                let instr = if not {
                    Instr::JumpIfTrue(FIXME)
                } else {
                    Instr::JumpIfFalse(FIXME)
                };
                let j = self.push(instr);
                self.compile_scope(then_branch);

                match else_branch {
                    Some(else_branch) => {
                        // else branch
                        let j2 = self.push(Instr::Jump(FIXME));
                        self.update_jump(j);
                        self.compile_scope(else_branch);
                        self.update_jump(j2)
                    }
                    None => {
                        self.update_jump(j);
                    }
                }
            }
''', '''                let j = match not {
                    true => self.push(Instr::JumpIfTrue(FIXME)),
                    false => self.push(Instr::JumpIfFalse(FIXME)),
                };
                self.compile_branches(j, then_branch, else_branch);
            }
'''), (CM, '''    fn compile_expr(''', '''    fn compile_branches(
        &mut self,
        j: usize,
        then_branch: ast::Scope,
        else_branch: Option<ast::Scope>,
    ) {
        self.compile_scope(then_branch);
        if let Some(else_branch) = else_branch {
            let j2 = self.push(Instr::Jump(FIXME));
            self.update_jump(j);
            self.compile_scope(else_branch);
            self.update_jump(j2);
        } else {
            self.update_jump(j);
        }
    }

    fn compile_expr(''')]),
 ("q7_cm_emit_pop_match", [(CM, '''        let emit = match self.instrs.last() {
            Some(Instr::Apply(_, _, None)) => {
                let instr = self.instrs.pop().unwrap();
                match instr {
                    Instr::Apply(ident, _, _) => Instr::EmitWith(ident, span),
                    _ => unreachable!(),
                }
            }
            _ => Instr::Emit(span),
        };
        self.push(emit);
''', '''        let emit = match self.instrs.last() {
            Some(Instr::Apply(ident, _, None)) => {
                let emit = Instr::EmitWith(*ident, span);
                self.instrs.pop();
                emit
            }
            _ => Instr::Emit(span),
        };
        self.push(emit);
''')]),
 ("q7_cm_emit_replace_last", [(CM, '''        let emit = match self.instrs.last() {
            Some(Instr::Apply(_, _, None)) => {
                let instr = self.instrs.pop().unwrap();
                match instr {
                    Instr::Apply(ident, _, _) => Instr::EmitWith(ident, span),
                    _ => unreachable!(),
                }
            }
            _ => Instr::Emit(span),
        };
        self.push(emit);
''', '''        if let Some(last) = self.instrs.last_mut() {
            if let Instr::Apply(ident, _, None) = last {
                *last = Instr::EmitWith(*ident, span);
                return;
            }
        }
        self.push(Instr::Emit(span));
''')]),
 ("q7_cm_include_push", [(CM, '''            ast::Stmt::Include(ast::Include { name, globals }) => match globals {
                Some(globals) => {
                    self.compile_expr(globals);
                    self.push(Instr::IncludeWith(name));
                }
                None => {
                    self.push(Instr::Include(name));
                }
            },
''', '''            ast::Stmt::Include(include) => {
                let instr = if let Some(globals) = include.globals {
                    self.compile_expr(globals);
                    Instr::IncludeWith(include.name)
                } else {
                    Instr::Include(include.name)
                };
                self.push(instr);
            }
''')]),
 ("q7_lx_next_filter", [(LX, '''        loop {
            match self.lex()? {
                Some((tk, sp)) if !tk.is_whitespace() => return Ok(Some((tk, sp))),
                None => return Ok(None),
                _ => continue,
            }
        }
''', '''        let mut next = self.lex()?;
        while matches!(&next, Some((tk, _)) if tk.is_whitespace()) {
            next = self.lex()?;
        }
        Ok(next)
''')]),
 ("q7_lx_lex_len", [(LX, '''        let i = self.cursor;

        if self.source[i..].is_empty() {
            return Ok(None);
        }
''', '''        let i = self.cursor;

        if i == self.source.len() {
            return Ok(None);
        }
''')]),
 ("q7_lx_comment_err", [(LX, '''                // Updates the current lexer cursor and state and returns the
                // token and span.
                let mut lex = |m, n| {
                    self.cursor = n;
                    self.state = State::Template;
                    self.left_trim = trim;
                    let end = Span::from(m..n);
                    Ok(Some((tk, end)))
                };

                if i == j {
                    // The current cursor is exactly at the token.
                    lex(j, k)
                } else {
                    // We must first emit the raw token, so we store the end tag
                    // token in the `next` buffer.
                    self.next = lex(j, k)?;
                    Ok(Some((Token::Raw, Span::from(i..j))))
                }
''', '''                self.cursor = k;
                self.state = State::Template;
                self.left_trim = trim;
                let tag = (tk, Span::from(j..k));

                if i < j {
                    // Emit what the comment says first.
                    self.next = Some(tag);
                    Ok(Some((Token::Raw, (i..j).into())))
                } else {
                    Ok(Some(tag))
                }
''')]),
 ("q7_lx_state_match", [(LX, '''        match (block_state, tk) {
            (BlockState::Unknown, Token::Ident) => {
                self.state = State::BlockPath { begin, end };
            }
            (BlockState::Path, Token::Pipe | Token::Comma | Token::Colon | Token::Keyword) => {
                self.state = State::Block { begin, end };
            }
            _ => {}
        }
''', '''        match block_state {
            BlockState::Unknown if matches!(tk, Token::Ident) => {
                self.state = State::BlockPath { begin, end };
            }
            BlockState::Path => match tk {
                Token::Pipe | Token::Comma | Token::Colon | Token::Keyword => {
                    self.state = State::Block { begin, end };
                }
                _ => {}
            },
            _ => {}
        }
''')]),
 ("q7_lx_end_tag_fn", [(LX, '''                if tk.is_begin_tag() {
                    return Err(self.err_unclosed(begin, end));
                }
                if tk != end {
                    return Err(self.err_unexpected_token(tk, i..j));
                }
''', '''                self.check_end(tk, Span::from(i..j), begin, end)?;
'''), (LX, '''    fn lex_question_dot<I>(''', '''    fn check_end(&self, tk: Token, span: Span, begin: Span, end: Token) -> Result<()> {
        if tk.is_begin_tag() {
            Err(self.err_unclosed(begin, end))
        } else if tk == end {
            Ok(())
        } else {
            Err(self.err_unexpected_token(tk, span))
        }
    }

    fn lex_question_dot<I>(''')]),
 ("q7_lx_string_if", [(LX, '''        let mut escaped = false;
        loop {
            match iter.next() {
                None => {
                    return Err(self.err_undelimited_string(i..self.source.len()));
                }
                Some((j, '\\r' | '\\n')) => {
                    return Err(self.err_undelimited_string(i..j));
                }
                Some((j, '"')) if !escaped => {
                    return Ok((Token::String, j + 1));
                }
                Some((_, c)) => {
                    escaped = c == '\\\\' && !escaped;
                }
            }
        }
''', '''        let mut escaped = false;
        while let Some((j, c)) = iter.next() {
            if c == '\\r' || c == '\\n' {
                return Err(self.err_undelimited_string(i..j));
            }
            if escaped {
                escaped = false;
            } else if c == '"' {
                return Ok((Token::String, j + 1));
            } else if c == '\\\\' {
                escaped = true;
            }
        }
        Err(self.err_undelimited_string(i..self.source.len()))
''')]),
 ("q7_lx_while_peekable", [(LX, '''        loop {
            match iter.clone().next() {
                Some((_, c)) if pred(c) => {
                    iter.next().unwrap();
                }
                Some((j, _)) => return j,
                None => return self.source.len(),
            }
        }
''', '''        for (j, c) in iter.by_ref() {
            if !pred(c) {
                return j;
            }
        }
        self.source.len()
''')]),
 ("q7_lx_kw_iter", [(LX, '''        let tk = match Keyword::all().contains(&&self.source[i..j]) {
            true => Token::Keyword,
            false => Token::Ident,
        };
        (tk, j)
''', '''        let word = &self.source[i..j];
        if Keyword::all().iter().any(|kw| *kw == word) {
            (Token::Keyword, j)
        } else {
            (Token::Ident, j)
        }
''')]),
 ("q7_lx_qdot_map", [(LX, '''        match iter.next() {
            Some((_, '.')) => Ok((Token::QuestionDot, i + 2)),
            Some((j, c)) => Err(self.err_unexpected_character(i..j + c.len_utf8())),
            None => Err(self.err_unexpected_character(i..self.source.len())),
        }
''', '''        let end = match iter.next() {
            Some((_, '.')) => return Ok((Token::QuestionDot, i + 2)),
            Some((j, c)) => j + c.len_utf8(),
            None => self.source.len(),
        };
        Err(self.err_unexpected_character(i..end))
''')]),
 ("q7_lx_trim_flat", [(LX, '''            if right_trim {
                j = i + self.source[i..j].trim_end().len();
            }
            if self.left_trim {
                self.left_trim = false;
                let s = &self.source[i..j];
                i += s.len() - s.trim_start().len();
            }
            Ok(Some((Token::Raw, Span::from(i..j))))
''', '''            if right_trim {
                let s = self.source[i..j].trim_end();
                j = i + s.len();
            }
            if std::mem::replace(&mut self.left_trim, false) {
                i = j - self.source[i..j].trim_start().len();
            }
            Ok(Some((Token::Raw, Span { m: i, n: j })))
''')]),
 ("q7_lx_begin_kind", [(LX, '''                    self.state = if tk.is_begin_comment() {
                        State::Comment { begin, end }
                    } else {
                        State::Block { begin, end }
                    };
''', '''                    self.state = match tk {
                        Token::BeginComment => State::Comment { begin, end },
                        _ => State::Block { begin, end },
                    };
''')]),
 ("q7_lx_number_helper", [(LX, '''                Some((j, '-' | '+'))
                    if self.engine.searcher.starts_with(self.source, j).is_some() =>
                {
                    break j;
                }
                Some((_, c)) if is_number(c) => {}
                Some((j, _)) => break j,
''', '''                Some((j, c)) => {
                    let is_tag = matches!(c, '-' | '+')
                        && self.engine.searcher.starts_with(self.source, j).is_some();
                    if is_tag || !is_number(c) {
                        break j;
                    }
                }
''')]),
 ("q7_pa_state_span", [(PA, '''            let (msg, span) = match block {
                State::If { span, .. } => ("unclosed `if` block", span),
                State::For { span, .. } => ("unclosed `for` block", span),
                State::With { span, .. } => ("unclosed `with` block", span),
            };
            return Err(Error::syntax(msg, self.source(), *span));
''', '''            return Err(match *block {
                State::If { span, .. } => self.err_unclosed("if", span),
                State::For { span, .. } => self.err_unclosed("for", span),
                State::With { span, .. } => self.err_unclosed("with", span),
            });
'''), (PA, '''    fn parse_block(&mut self)''', '''    fn err_unclosed(&self, block: &str, span: Span) -> Error {
        Error::syntax(format!("unclosed `{block}` block"), self.source(), span)
    }

    fn parse_block(&mut self)''')]),
 ("q7_pa_scope_pop", [(PA, '''        Ok(ast::Template {
            scope: scopes.remove(0),
        })
''', '''        let scope = scopes.pop().unwrap();
        Ok(ast::Template { scope })
''')]),
 ("q7_pa_push_fn", [(PA, '''            scopes.last_mut().unwrap().stmts.push(stmt);
        }

        if let''', '''            let scope = scopes.last_mut().unwrap();
            scope.stmts.push(stmt);
        }

        if let''')]),
 ("q7_pa_with_let", [(PA, '''                            let with = match blocks.pop().ok_or_else(err)? {
                                State::With { expr, name, .. } => {
                                    let body = scopes.pop().unwrap();
                                    ast::With { expr, name, body }
                                }
                                _ => return Err(err()),
                            };
                            ast::Stmt::With(with)
''', '''                            match blocks.pop() {
                                Some(State::With { expr, name, .. }) => {
                                    let body = scopes.pop().unwrap();
                                    ast::Stmt::With(ast::With { expr, name, body })
                                }
                                _ => return Err(err()),
                            }
''')]),
 ("q7_pa_else_if_let", [(PA, '''                            match blocks.last_mut().ok_or_else(err)? {
                                State::If {
                                    has_else: has_else @ false,
                                    ..
                                } => {
                                    *has_else = true;
                                }
                                _ => return Err(err()),
                            }
                            scopes.push(ast::Scope::new());
                            continue;
                        }

                        // The end of an `if`''', '''                            if let Some(State::If { has_else, .. }) = blocks.last_mut() {
                                if *has_else {
                                    return Err(err());
                                }
                                *has_else = true;
                            } else {
                                return Err(err());
                            }
                            scopes.push(ast::Scope::new());
                            continue;
                        }

                        // The end of an `if`''')]),
 ("q7_pa_if_let_not", [(PA, '''        if self.is_next_keyword(Keyword::Not)? {
            self.expect_keyword(Keyword::Not)?;
            let expr = self.parse_expr()?;
            Ok((true, expr))
        } else {
            let expr = self.parse_expr()?;
            Ok((false, expr))
        }
''', '''        let not = self.is_next_keyword(Keyword::Not)?;
        if not {
            self.next()?;
        }
        Ok((not, self.parse_expr()?))
''')]),
 ("q7_pa_expr_args_split", [(PA, '''            let (args, span) = if self.is_next(Token::Colon)? {
                let span = self.expect(Token::Colon)?;
                let args = self.parse_args(span)?;
                let span = expr.span().combine(args.span);
                (Some(args), span)
            } else {
                (None, expr.span().combine(name.span))
            };
''', '''            let args = match self.is_next(Token::Colon)? {
                true => {
                    let colon = self.expect(Token::Colon)?;
                    Some(self.parse_args(colon)?)
                }
                false => None,
            };
            let last = args.as_ref().map_or(name.span, |args| args.span);
            let span = expr.span().combine(last);
''')]),
 ("q7_pa_sign_shared", [(PA, '''            (Token::Minus, sign) => {
                let span = self.expect(Token::Number)?;
                let lit =
                    self.parse_literal_number(&self.source()[span], sign.combine(span), Sign::Neg)?;
                ast::BaseExpr::Literal(lit)
            }

            (Token::Plus, sign) => {
                let span = self.expect(Token::Number)?;
                let lit =
                    self.parse_literal_number(&self.source()[span], sign.combine(span), Sign::Pos)?;
                ast::BaseExpr::Literal(lit)
            }
''', '''            (tk @ (Token::Minus | Token::Plus), begin) => {
                let number = self.expect(Token::Number)?;
                let sign = match tk {
                    Token::Minus => Sign::Neg,
                    _ => Sign::Pos,
                };
                let raw = &self.source()[number];
                ast::BaseExpr::Literal(self.parse_literal_number(raw, begin.combine(number), sign)?)
            }
''')]),
 ("q7_pa_var_while", [(PA, '''        loop {
            match self.peek()? {
                Some((Token::Dot, sp)) => {
                    self.expect(Token::Dot)?;
                    let access = self.parse_access()?;
                    path.push(ast::Member {
                        op: ast::AccessOp::Direct,
                        access,
                        span: sp.combine(access.span()),
                    });
                }
                Some((Token::QuestionDot, sp)) => {
                    self.expect(Token::QuestionDot)?;
                    let access = self.parse_access()?;
                    path.push(ast::Member {
                        op: ast::AccessOp::Optional,
                        access,
                        span: sp.combine(access.span()),
                    });
                }
                _ => break,
            }
        }
''', '''        while let Some((tk @ (Token::Dot | Token::QuestionDot), dot)) = self.peek()? {
            self.next()?;
            let op = if tk == Token::Dot {
                ast::AccessOp::Direct
            } else {
                ast::AccessOp::Optional
            };
            let access = self.parse_access()?;
            let span = dot.combine(access.span());
            path.push(ast::Member { op, access, span });
        }
''')]),
 ("q7_pa_access_err", [(PA, '''                let value = match self.source()[span].parse() {
                    Ok(value) => value,
                    Err(_) => {
                        return Err(Error::syntax(
                            format!(
                                "base 10 literal out of range for unsigned {}-bit integer",
                                usize::BITS
                            ),
                            self.source(),
                            span,
                        ));
                    }
                };
                Ok(ast::Access::Index(ast::Index { value, span }))
''', '''                if let Ok(value) = self.source()[span].parse::<usize>() {
                    return Ok(ast::Access::Index(ast::Index { value, span }));
                }
                let bits = usize::BITS;
                Err(Error::syntax(
                    format!("base 10 literal out of range for unsigned {bits}-bit integer"),
                    self.source(),
                    span,
                ))
''')]),
 ("q7_pa_args_last", [(PA, '''        let mut values = Vec::new();
        loop {
            values.push(self.parse_base_expr()?);
            if !self.is_next(Token::Comma)? {
                break;
            }
            self.expect(Token::Comma)?;
        }
        let span = span.combine(values.last().unwrap().span());
        Ok(ast::Args { values, span })
''', '''        let first = self.parse_base_expr()?;
        let mut end = first.span();
        let mut values = vec![first];
        while self.is_next(Token::Comma)? {
            self.expect(Token::Comma)?;
            let arg = self.parse_base_expr()?;
            end = arg.span();
            values.push(arg);
        }
        let span = span.combine(end);
        Ok(ast::Args { values, span })
''')]),
 ("q7_pa_loopvars_if", [(PA, '''        if !self.is_next(Token::Comma)? {
            return Ok(ast::LoopVars::Item(key));
        }
        self.expect(Token::Comma)?;
        let value = self.parse_ident()?;
        let span = key.span.combine(value.span);
        Ok(ast::LoopVars::KeyValue(ast::KeyValue { key, value, span }))
''', '''        let vars = if self.is_next(Token::Comma)? {
            self.expect(Token::Comma)?;
            let value = self.parse_ident()?;
            ast::LoopVars::KeyValue(ast::KeyValue {
                key,
                value,
                span: key.span.combine(value.span),
            })
        } else {
            ast::LoopVars::Item(key)
        };
        Ok(vars)
''')]),
 ("q7_pa_bool_match", [(PA, '''        let bool = match &self.source()[span] {
            "false" => false,
            "true" => true,
            kw => {
                return Err(self.err_unexpected_keyword(kw, span));
            }
        };
        let value = Value::Bool(bool);
        Ok(ast::Literal { value, span })
''', '''        match &self.source()[span] {
            "true" => Ok(ast::Literal { value: Value::from(true), span }),
            "false" => Ok(ast::Literal { value: Value::from(false), span }),
            kw => Err(self.err_unexpected_keyword(kw, span)),
        }
''')]),
 ("q7_pa_number_flat", [(PA, '''        match self.parse_literal_integer(raw, span, sign) {
            Ok(lit) => Ok(lit),
            Err(err) => match self.parse_literal_float(raw, span, sign) {
                Ok(lit) => Ok(lit),
                Err(err2) => {
                    if raw.contains(['.', '-', '+']) {
                        Err(err2)
                    } else {
                        Err(err)
                    }
                }
            },
        }
''', '''        let int_err = match self.parse_literal_integer(raw, span, sign) {
            Ok(lit) => return Ok(lit),
            Err(err) => err,
        };
        let float_err = match self.parse_literal_float(raw, span, sign) {
            Ok(lit) => return Ok(lit),
            Err(err) => err,
        };
        let looks_like_float = raw.contains(['.', '-', '+']);
        Err(if looks_like_float { float_err } else { int_err })
''')]),
 ("q7_pa_integer_loop", [(PA, '''        let int = digits[i..]
            .iter()
            .enumerate()
            .filter(|(_, &d)| d != b'_')
            .try_fold(0i64, |acc, (j, &d)| {
                let x = (d as char).to_digit(radix).ok_or_else(|| {
                    let m = span.n - raw.len() + i + j;
                    Error::syntax(
                        format!("invalid digit for base {radix} literal"),
                        self.source(),
                        m..m + 1,
                    )
                })?;
                let err = || {
                    Error::syntax(
                        format!("base {radix} literal out of range for 64-bit integer"),
                        self.source(),
                        span,
                    )
                };
                let value = acc.checked_mul(radix.into()).ok_or_else(err)?;
                match sign {
                    Sign::Pos => value.checked_add(x.into()),
                    Sign::Neg => value.checked_sub(x.into()),
                }
                .ok_or_else(err)
            })?;
''', '''        let overflow = || {
            Error::syntax(
                format!("base {radix} literal out of range for 64-bit integer"),
                self.source(),
                span,
            )
        };
        let mut int = 0i64;
        for (j, &d) in digits[i..].iter().enumerate() {
            if d == b'_' {
                continue;
            }
            let x = match char::from(d).to_digit(radix) {
                Some(x) => i64::from(x),
                None => {
                    let m = span.n - raw.len() + i + j;
                    return Err(Error::syntax(
                        format!("invalid digit for base {radix} literal"),
                        self.source(),
                        m..m + 1,
                    ));
                }
            };
            let scaled = int.checked_mul(i64::from(radix)).ok_or_else(overflow)?;
            let next = match sign {
                Sign::Pos => scaled.checked_add(x),
                Sign::Neg => scaled.checked_sub(x),
            };
            int = next.ok_or_else(overflow)?;
        }
''')]),
 ("q7_pa_float_let", [(PA, '''        let value = match sign {
            Sign::Neg => Value::Float(-float),
            Sign::Pos => Value::Float(float),
        };
        Ok(ast::Literal { value, span })
''', '''        let float = if let Sign::Neg = sign { -float } else { float };
        Ok(ast::Literal {
            value: Value::Float(float),
            span,
        })
''')]),
 ("q7_pa_kw_expect", [(PA, '''        let (kw, span) = self.parse_keyword()?;
        if kw != exp {
            let exp = exp.human();
            let kw = kw.human();
            return Err(Error::syntax(
                format!("expected keyword `{exp}`, found keyword `{kw}`"),
                self.source(),
                span,
            ));
        }
        Ok(span)
''', '''        match self.parse_keyword()? {
            (kw, span) if kw == exp => Ok(span),
            (kw, span) => {
                let (exp, kw) = (exp.human(), kw.human());
                let msg = format!("expected keyword `{exp}`, found keyword `{kw}`");
                Err(Error::syntax(msg, self.source(), span))
            }
        }
''')]),
 ("q7_se_find_match", [(SE, '''        self.imp.find_at(haystack, at).map(|m| {
            let kind = Kind::from_usize(m.pattern_id());
            (kind, m.start(), m.end())
        })
''', '''        match self.imp.find_at(haystack, at) {
            None => None,
            Some(m) => Some((Kind::from_usize(m.pattern_id()), m.start(), m.end())),
        }
''')]),
 ("q7_se_starts_match", [(SE, '''        let (kind, i, j) = self.find_at(haystack, at)?;
        if at == i {
            Some((kind, j))
        } else {
            None
        }
''', '''        match self.find_at(haystack, at) {
            Some((kind, i, j)) if i == at => Some((kind, j)),
            _ => None,
        }
''')]),
]
