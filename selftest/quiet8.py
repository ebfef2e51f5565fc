"""Behaviour-preserving edits, eighth set: larger, multi-function refactorings."""
CO, IT, ST, VA = "src/render/core.rs", "src/render/iter.rs", "src/render/stack.rs", "src/render/value.rs"
LX, PA, CM, SE = "src/compile/lex.rs", "src/compile/parse.rs", "src/compile/mod.rs", "src/compile/search/mod.rs"
ER, RM, FI, SY, BU = "src/error.rs", "src/render/mod.rs", "src/filters/mod.rs", "src/types/syntax.rs", "src/compile/search/ahocorasick/build.rs"
FM, SR = "src/fmt.rs", "src/value/ser/mod.rs"
E = [
 ("q8_core_merge_include", [(CO, '''    Include {
        template_name: &'render ast::String,
    },
    IncludeWith {
        template_name: &'render ast::String,
        globals: ValueCow<'stack>,
    },
''', '''    Include {
        template_name: &'render ast::String,
        globals: Option<ValueCow<'stack>>,
    },
'''), (CO, '''                RenderState::Include { template_name } => {
                    let template =
                        self.get_template(&t.source, template_name)
                            .map_err(|e| match tname {
                                Some(s) => e.with_template_name(s.to_owned()),
                                None => e,
                            })?;
                    templates.push((template, Some(template_name.as_str()), 0, false));
                }
                RenderState::IncludeWith {
                    template_name,
                    globals,
                } => {
                    let template =
                        self.get_template(&t.source, template_name)
                            .map_err(|e| match tname {
                                Some(s) => e.with_template_name(s.to_owned()),
                                None => e,
                            })?;
                    self.stack.push(State::Boundary);
                    self.stack.push(State::Scope(globals));
                    templates.push((template, Some(template_name.as_str()), 0, true));
                }
''', '''                RenderState::Include {
                    template_name,
                    globals,
                } => {
                    let template =
                        self.get_template(&t.source, template_name)
                            .map_err(|e| match tname {
                                Some(s) => e.with_template_name(s.to_owned()),
                                None => e,
                            })?;
                    let scoped = globals.is_some();
                    if let Some(globals) = globals {
                        self.stack.push(State::Boundary);
                        self.stack.push(State::Scope(globals));
                    }
                    templates.push((template, Some(template_name.as_str()), 0, scoped));
                }
'''), (CO, '''                    return Ok(RenderState::Include { template_name });
''', '''                    return Ok(RenderState::Include {
                        template_name,
                        globals: None,
                    });
'''), (CO, '''                    return Ok(RenderState::IncludeWith {
                        template_name,
                        globals,
                    });
''', '''                    return Ok(RenderState::Include {
                        template_name,
                        globals: Some(globals),
                    });
''')]),
 ("q8_core_apply_helper", [(CO, '''                            let mut value = expr.take().unwrap();
                            let result = filter(FilterState {
                                stack: &self.stack,
                                source: &t.source,
                                filter: name,
                                value: &mut value,
                                args: &[],
                            })
                            .map_err(|err| err.enrich(&t.source, name.span))?;
''', '''                            let value = expr.take().unwrap();
                            let result = self.apply_filter(filter, &t.source, name, value, &[])?;
'''), (CO, '''                            let mut value = expr.take().unwrap();
                            let args = _args
                                .as_ref()
                                .map(|args| args.values.as_slice())
                                .unwrap_or(&[]);
                            let result = filter(FilterState {
                                stack: &self.stack,
                                source: &t.source,
                                filter: name,
                                value: &mut value,
                                args,
                            })
                            .map_err(|e| e.enrich(&t.source, name.span))?;
                            expr.replace(ValueCow::Owned(result));
''', '''                            let value = expr.take().unwrap();
                            let args = match _args {
                                Some(args) => args.values.as_slice(),
                                None => &[],
                            };
                            let result = self.apply_filter(filter, &t.source, name, value, args)?;
                            expr.replace(ValueCow::Owned(result));
'''), (CO, '''    fn get_template(
        &mut self,''', '''    #[cfg(feature = "filters")]
    fn apply_filter<'a>(
        &self,
        filter: &crate::filters::FilterFn,
        source: &'a str,
        name: &'a ast::Ident,
        value: ValueCow<'stack>,
        args: &'a [ast::BaseExpr],
    ) -> Result<crate::Value> {
        let mut value: ValueCow<'_> = value;
        let state = FilterState {
            stack: &self.stack,
            source,
            filter: name,
            value: &mut value,
            args,
        };
        filter(state).map_err(|err| err.enrich(source, name.span))
    }

    fn get_template(
        &mut self,''')]),
 ("q8_core_frame_struct", [(CO, '''        let mut templates = vec![(self.inner.template, self.inner.template_name, 0, false)];
''', '''        let mut templates = vec![Frame {
            template: self.inner.template,
            name: self.inner.template_name,
            pc: 0,
            has_scope: false,
        }];
'''), (CO, '''        while let Some((t, tname, pc, has_scope)) = templates.last_mut() {
''', '''        while let Some(Frame {
            template: t,
            name: tname,
            pc,
            has_scope,
        }) = templates.last_mut()
        {
'''), (CO, '''templates.push((template, Some(template_name.as_str()), 0, false));''', '''templates.push(Frame {
                        template,
                        name: Some(template_name.as_str()),
                        pc: 0,
                        has_scope: false,
                    });'''), (CO, '''templates.push((template, Some(template_name.as_str()), 0, true));''', '''templates.push(Frame {
                        template,
                        name: Some(template_name.as_str()),
                        pc: 0,
                        has_scope: true,
                    });'''), (CO, '''impl<'render, 'stack> RendererImpl<'render, 'stack>
where''', '''/// A template that is being rendered.
struct Frame<'render> {
    template: &'render Template<'render>,
    name: Option<&'render str>,
    pc: usize,
    has_scope: bool,
}

impl<'render, 'stack> RendererImpl<'render, 'stack>
where''')]),
 ("q8_core_emit_helper", [(CO, '''                    let value = expr.take().unwrap();
                    (self.inner.engine.default_formatter)(f, &value)
                        .map_err(|err| Error::format(err, &t.source, *span))?;
''', '''                    let value = expr.take().unwrap();
                    self.emit(f, &value, &t.source, *span)?;
'''), (CO, '''                            (self.inner.engine.default_formatter)(f, &result)
                                .map_err(|err| Error::format(err, &t.source, *_span))?;
''', '''                            self.emit(f, &result, &t.source, *_span)?;
'''), (CO, '''    fn get_template(
        &mut self,''', '''    fn emit(
        &self,
        f: &mut Formatter<'_>,
        value: &crate::Value,
        source: &str,
        span: crate::types::span::Span,
    ) -> Result<()> {
        let format = self.inner.engine.default_formatter;
        if let Err(err) = format(f, value) {
            return Err(Error::format(err, source, span));
        }
        Ok(())
    }

    fn get_template(
        &mut self,''')]),
 ("q8_core_loop_let_else", [(CO, '''        while let Some((t, tname, pc, has_scope)) = templates.last_mut() {
''', '''        loop {
            let (t, tname, pc, has_scope) = match templates.last_mut() {
                Some(frame) => frame,
                None => return Ok(()),
            };
'''), (CO, '''                return Err(Error::max_include_depth(max_include_depth));
            }
        }

        Ok(())
''', '''                return Err(Error::max_include_depth(max_include_depth));
            }
        }
''')]),
 ("q8_core_isolate", [(CO, '''                        self.stack.pop_scope();
                        self.stack.pop_boundary();
''', '''                        self.stack.leave_template();
'''), (CO, '''                    self.stack.push(State::Boundary);
                    self.stack.push(State::Scope(globals));
''', '''                    self.stack.enter_template(globals);
'''), (ST, '''    pub fn push(&mut self, state: State<'a>) {''', '''    /// Hides what is on the stack and starts over with new globals.
    pub fn enter_template(&mut self, globals: ValueCow<'a>) {
        self.push(State::Boundary);
        self.push(State::Scope(globals));
    }

    /// Reverts `enter_template()`.
    pub fn leave_template(&mut self) {
        self.pop_scope();
        self.pop_boundary();
    }

    pub fn push(&mut self, state: State<'a>) {''')]),
 ("q8_iter_loop_member", [(IT, '''        let v = match (&member.op, name) {
            (_, "index") => Value::Integer(i as i64),
            (_, "first") => Value::Bool(i == 0),
            (_, "last") => Value::Bool(rem == 0),
            (ast::AccessOp::Optional, _) => return Ok(Some(ValueCow::Owned(Value::None))),
            (ast::AccessOp::Direct, _) => {
                return Err(Error::render("not found in map", source, member.span))
            }
        };
''', '''        let v = match loop_member(name, i, rem) {
            Some(v) => v,
            None => match member.op {
                ast::AccessOp::Optional => return Ok(Some(ValueCow::Owned(Value::None))),
                ast::AccessOp::Direct => {
                    return Err(Error::render("not found in map", source, member.span))
                }
            },
        };
'''), (IT, '''impl<'a> LoopState<'a> {
''', '''fn loop_member(name: &str, i: usize, rem: usize) -> Option<Value> {
    match name {
        "index" => Some(Value::Integer(i as i64)),
        "first" => Some(Value::Bool(i == 0)),
        "last" => Some(Value::Bool(rem == 0)),
        _ => None,
    }
}

impl<'a> LoopState<'a> {
''')]),
 ("q8_iter_iterate_bool", [(IT, '''    pub fn iterate(&mut self) -> Option<()> {
        match self {
            Self::ListBorrowed { iter, value, .. } => {
                *value = Some(iter.next()?);
            }
            Self::ListOwned { iter, value, .. } => {
                *value = Some(iter.next()?);
            }
            Self::MapBorrowed { iter, value, .. } => {
                *value = Some(iter.next()?);
            }
            Self::MapOwned { iter, value, .. } => {
                *value = Some(iter.next()?);
            }
        }
        Some(())
    }
''', '''    /// Moves on to the next item and returns whether there is one.
    pub fn advance(&mut self) -> bool {
        fn step<I: Iterator>(iter: &mut I, value: &mut Option<I::Item>) -> bool {
            match iter.next() {
                Some(next) => {
                    *value = Some(next);
                    true
                }
                None => false,
            }
        }
        match self {
            Self::ListBorrowed { iter, value, .. } => step(iter, value),
            Self::ListOwned { iter, value, .. } => step(iter, value),
            Self::MapBorrowed { iter, value, .. } => step(iter, value),
            Self::MapOwned { iter, value, .. } => step(iter, value),
        }
    }
'''), (CO, '''                    if self.stack.last_loop_state_mut().iterate().is_none() {''', '''                    if !self.stack.last_loop_state_mut().advance() {''')]),
 ("q8_iter_new_split", [(IT, '''        match iterable {
            ValueCow::Borrowed(v) => match v {
                Value::List(list) => {
                    let item = unpack_list_item(vars)?;
                    Ok(Self::ListBorrowed {
                        i: &source[item.span],
                        iter: list.iter().enumerate(),
                        value: None,
                    })
                }

                Value::Map(map) => {
                    let kv = unpack_map_item(vars)?;
                    Ok(Self::MapBorrowed {
                        k: &source[kv.key.span],
                        v: &source[kv.value.span],
                        iter: map.iter().enumerate(),
                        value: None,
                    })
                }
                _ => Err(err()),
            },

            ValueCow::Owned(v) => match v {
                Value::List(list) => {
                    let item = unpack_list_item(vars)?;
                    Ok(Self::ListOwned {
                        i: &source[item.span],
                        iter: list.into_iter().enumerate(),
                        value: None,
                    })
                }

                Value::Map(map) => {
                    let kv = unpack_map_item(vars)?;
                    Ok(Self::MapOwned {
                        k: &source[kv.key.span],
                        v: &source[kv.value.span],
                        iter: map.into_iter().enumerate(),
                        value: None,
                    })
                }
                _ => Err(err()),
            },
        }
''', '''        match iterable {
            ValueCow::Borrowed(Value::List(list)) => {
                let i = &source[unpack_list_item(vars)?.span];
                let iter = list.iter().enumerate();
                let value = None;
                Ok(Self::ListBorrowed { i, iter, value })
            }
            ValueCow::Owned(Value::List(list)) => {
                let i = &source[unpack_list_item(vars)?.span];
                let iter = list.into_iter().enumerate();
                let value = None;
                Ok(Self::ListOwned { i, iter, value })
            }
            ValueCow::Borrowed(Value::Map(map)) => {
                let kv = unpack_map_item(vars)?;
                let (k, v) = (&source[kv.key.span], &source[kv.value.span]);
                let iter = map.iter().enumerate();
                let value = None;
                Ok(Self::MapBorrowed { k, v, iter, value })
            }
            ValueCow::Owned(Value::Map(map)) => {
                let kv = unpack_map_item(vars)?;
                let (k, v) = (&source[kv.key.span], &source[kv.value.span]);
                let iter = map.into_iter().enumerate();
                let value = None;
                Ok(Self::MapOwned { k, v, iter, value })
            }
            ValueCow::Borrowed(_) | ValueCow::Owned(_) => Err(err()),
        }
''')]),
 ("q8_stack_pop_helper", [(ST, '''    pub fn pop_scope(&mut self) -> ValueCow<'a> {
        match self.stack.pop().unwrap() {
            State::Scope(globals) => globals,
            _ => panic!("expected scope"),
        }
    }
''', '''    fn pop(&mut self) -> State<'a> {
        self.stack.pop().expect("stack is empty")
    }

    pub fn pop_scope(&mut self) -> ValueCow<'a> {
        if let State::Scope(globals) = self.pop() {
            return globals;
        }
        panic!("expected scope")
    }
'''), (ST, '''        match self.stack.pop().unwrap() {
            State::Var(name, value) => (name, value),
            _ => panic!("expected variable"),
        }
''', '''        let State::Var(name, value) = self.pop() else {
            panic!("expected variable");
        };
        (name, value)
''')]),
 ("q8_stack_members", [(ST, '''                    let path: Vec<_> = v
                        .path
                        .iter()
                        .map(|member| {
                            let op = match member.op {
                                ast::AccessOp::Direct => ValueAccessOp::Direct,
                                ast::AccessOp::Optional => ValueAccessOp::Optional,
                            };
                            let access = match member.access {
                                ast::Access::Index(a) => ValueAccess::Index(a.value),
                                ast::Access::Key(a) => ValueAccess::Key(&source[a.span]),
                            };
                            ValueMember { op, access }
                        })
                        .collect();
                    return value_fn(&path)
''', '''                    let mut path = Vec::with_capacity(v.path.len());
                    for member in &v.path {
                        path.push(value_member(source, member));
                    }
                    return value_fn(&path)
'''), (ST, '''impl<'a> Stack<'a> {
    /// Construct''' if False else '''impl<'a> Stack<'a> {
''', '''fn value_member<'s>(source: &'s str, member: &ast::Member) -> ValueMember<'s> {
    ValueMember {
        access: match &member.access {
            ast::Access::Key(ident) => ValueAccess::Key(&source[ident.span]),
            ast::Access::Index(index) => ValueAccess::Index(index.value),
        },
        op: if matches!(member.op, ast::AccessOp::Optional) {
            ValueAccessOp::Optional
        } else {
            ValueAccessOp::Direct
        },
    }
}

impl<'a> Stack<'a> {
''')]),
 ("q8_value_lookup_split", [(VA, '''        (Value::List(list), ast::Access::Index(index)) => {
            let ast::Index { value: i, .. } = index;
            match (&member.op, list.get(*i)) {
                (_, Some(value)) => Ok(Some(value)),
                (ast::AccessOp::Optional, _) => Ok(None),
                (ast::AccessOp::Direct, _) => {
                    let len = list.len();
                    Err(Error::render(
                        format!("index out of bounds, the length is {len}"),
                        source,
                        member.span,
                    ))
                }
            }
        }
        (Value::Map(map), ast::Access::Key(ident)) => {
            let ast::Ident { span } = ident;
            match (&member.op, map.get(&source[*span])) {
                (_, Some(value)) => Ok(Some(value)),
                (ast::AccessOp::Optional, _) => Ok(None),
                (ast::AccessOp::Direct, _) => {
                    Err(Error::render("not found in map", source, member.span))
                }
            }
        }
''', '''        (Value::List(list), ast::Access::Index(index)) => {
            found_or(list.get(index.value), &member.op, || {
                let len = list.len();
                let msg = format!("index out of bounds, the length is {len}");
                Error::render(msg, source, member.span)
            })
        }
        (Value::Map(map), ast::Access::Key(ident)) => {
            found_or(map.get(&source[ident.span]), &member.op, || {
                Error::render("not found in map", source, member.span)
            })
        }
'''), (VA, '''/// Access the given member from the value.
''', '''/// What a lookup gives, if nothing was found that depends on the operator.
fn found_or<'a, F>(
    found: Option<&'a Value>,
    op: &ast::AccessOp,
    err: F,
) -> Result<Option<&'a Value>>
where
    F: FnOnce() -> Error,
{
    if found.is_some() {
        return Ok(found);
    }
    match op {
        ast::AccessOp::Optional => Ok(None),
        ast::AccessOp::Direct => Err(err()),
    }
}

/// Access the given member from the value.
''')]),
 ("q8_value_walk", [(VA, '''    match value {
        ValueCow::Borrowed(mut value) => {
            for p in path {
                match lookup(source, value, p)? {
                    Some(v) => value = v,
                    None => return Ok(ValueCow::Borrowed(&Value::None)),
                }
            }
            Ok(ValueCow::Borrowed(value))
        }
        ValueCow::Owned(value) => {
            let mut value: &Value = value;
            for p in path {
                match lookup(source, value, p)? {
                    Some(v) => value = v,
                    None => return Ok(ValueCow::Borrowed(&Value::None)),
                }
            }
            Ok(ValueCow::Owned(value.clone()))
        }
    }
}

/// Lookup the given path, return None''', '''    let found = match value {
        ValueCow::Borrowed(value) => walk(source, value, path)?.map(ValueCow::Borrowed),
        ValueCow::Owned(value) => {
            walk(source, value, path)?.map(|value| ValueCow::Owned(value.clone()))
        }
    };
    Ok(found.unwrap_or(ValueCow::Borrowed(&Value::None)))
}

/// Follows the path, returns None if an optional member is missing.
fn walk<'v>(
    source: &str,
    mut value: &'v Value,
    path: &[ast::Member],
) -> Result<Option<&'v Value>> {
    for member in path {
        value = match lookup(source, value, member)? {
            Some(value) => value,
            None => return Ok(None),
        };
    }
    Ok(Some(value))
}

/// Lookup the given path, return None''')]),
 ("q8_parse_close_helpers", [(PA, '''                            let err =
                                || Error::syntax("unexpected `endfor` block", self.source(), span);

                            let for_loop = match blocks.pop().ok_or_else(err)? {
                                State::For { vars, iterable, .. } => {
                                    let body = scopes.pop().unwrap();
                                    ast::ForLoop {
                                        vars,
                                        iterable,
                                        body,
                                    }
                                }
                                _ => return Err(err()),
                            };
                            ast::Stmt::ForLoop(for_loop)
''', '''                            match blocks.pop() {
                                Some(State::For { vars, iterable, .. }) => {
                                    let body = scopes.pop().unwrap();
                                    ast::Stmt::ForLoop(ast::ForLoop {
                                        vars,
                                        iterable,
                                        body,
                                    })
                                }
                                _ => return Err(self.err_unexpected_block("endfor", span)),
                            }
'''), (PA, '''                            let err =
                                || Error::syntax("unexpected `endwith` block", self.source(), span);

                            let with = match blocks.pop().ok_or_else(err)? {
                                State::With { expr, name, .. } => {
                                    let body = scopes.pop().unwrap();
                                    ast::With { expr, name, body }
                                }
                                _ => return Err(err()),
                            };
                            ast::Stmt::With(with)
''', '''                            match blocks.pop() {
                                Some(State::With { expr, name, .. }) => {
                                    let body = scopes.pop().unwrap();
                                    ast::Stmt::With(ast::With { expr, name, body })
                                }
                                _ => return Err(self.err_unexpected_block("endwith", span)),
                            }
'''), (PA, '''    fn err_unexpected_eof(''', '''    fn err_unexpected_block(&self, name: &str, span: Span) -> Error {
        Error::syntax(format!("unexpected `{name}` block"), self.source(), span)
    }

    fn err_unexpected_eof(''')]),
 ("q8_parse_else_helper", [(PA, '''                            match blocks.last_mut().ok_or_else(err)? {
                                State::If {
                                    has_else: has_else @ false,
                                    ..
                                } => {
                                    *has_else = true;
                                }
                                _ => return Err(err()),
                            }
                            blocks.push(State::If {''', '''                            if !start_else(&mut blocks) {
                                return Err(err());
                            }
                            blocks.push(State::If {'''), (PA, '''                            match blocks.last_mut().ok_or_else(err)? {
                                State::If {
                                    has_else: has_else @ false,
                                    ..
                                } => {
                                    *has_else = true;
                                }
                                _ => return Err(err()),
                            }
                            scopes.push(ast::Scope::new());
                            continue;
                        }

                        // The end of an `if`''', '''                            if !start_else(&mut blocks) {
                                return Err(err());
                            }
                            scopes.push(ast::Scope::new());
                            continue;
                        }

                        // The end of an `if`'''), (PA, '''impl Keyword {
''', '''/// Marks the innermost block as having an else branch, if it may have one.
fn start_else(blocks: &mut [State]) -> bool {
    match blocks.last_mut() {
        Some(State::If { has_else, .. }) if !*has_else => {
            *has_else = true;
            true
        }
        _ => false,
    }
}

impl Keyword {
''')]),
 ("q8_parse_endif_method", [(PA, '''                            loop {
                                match blocks.pop().ok_or_else(err)? {
                                    State::If {
                                        is_else_if,
                                        not,
                                        cond,
                                        has_else,
                                        ..
                                    } => {
                                        let else_branch = has_else.then(|| scopes.pop().unwrap());
                                        let then_branch = scopes.pop().unwrap();
                                        let stmt = ast::Stmt::IfElse(ast::IfElse {
                                            not,
                                            cond,
                                            then_branch,
                                            else_branch,
                                        });
                                        if !is_else_if {
                                            break stmt;
                                        }
                                        scopes.last_mut().unwrap().stmts.push(stmt);
                                    }
                                    _ => return Err(err()),
                                };
                            }
''', '''                            close_if(&mut blocks, &mut scopes).ok_or_else(err)?
'''), (PA, '''impl Keyword {
''', '''/// Closes an `if` with all of its `else if` clauses.
fn close_if(blocks: &mut Vec<State>, scopes: &mut Vec<ast::Scope>) -> Option<ast::Stmt> {
    while let Some(State::If {
        is_else_if,
        not,
        cond,
        has_else,
        ..
    }) = blocks.pop()
    {
        let else_branch = if has_else {
            Some(scopes.pop().unwrap())
        } else {
            None
        };
        let then_branch = scopes.pop().unwrap();
        let stmt = ast::Stmt::IfElse(ast::IfElse {
            not,
            cond,
            then_branch,
            else_branch,
        });
        if is_else_if {
            scopes.last_mut().unwrap().stmts.push(stmt);
        } else {
            return Some(stmt);
        }
    }
    None
}

impl Keyword {
''')]),
 ("q8_parse_sign_merge", [(PA, '''            (Token::Minus, sign) => {
                let span = self.expect(Token::Number)?;
                let lit =
                    self.parse_literal_number(&self.source()[span], sign.combine(span), Sign::Neg)?;
                ast::BaseExpr::Literal(lit)
            }

            (Token::Plus, sign) => {
                let span = self.expect(Token::Number)?;
                let lit =
                    self.parse_literal_number(&self.source()[span], sign.combine(span), Sign::Pos)?;
                ast::BaseExpr::Literal(lit)
            }
''', '''            (tk @ (Token::Minus | Token::Plus), start) => {
                let sign = if tk == Token::Minus {
                    Sign::Neg
                } else {
                    Sign::Pos
                };
                let span = self.expect(Token::Number)?;
                let raw = &self.source()[span];
                let lit = self.parse_literal_number(raw, start.combine(span), sign)?;
                ast::BaseExpr::Literal(lit)
            }
''')]),
 ("q8_parse_var_member", [(PA, '''            match self.peek()? {
                Some((Token::Dot, sp)) => {
                    self.expect(Token::Dot)?;
                    let access = self.parse_access()?;
                    path.push(ast::Member {
                        op: ast::AccessOp::Direct,
                        access,
                        span: sp.combine(access.span()),
                    });
                }
                Some((Token::QuestionDot, sp)) => {
                    self.expect(Token::QuestionDot)?;
                    let access = self.parse_access()?;
                    path.push(ast::Member {
                        op: ast::AccessOp::Optional,
                        access,
                        span: sp.combine(access.span()),
                    });
                }
                _ => break,
            }
''', '''            let op = match self.peek()? {
                Some((Token::Dot, _)) => ast::AccessOp::Direct,
                Some((Token::QuestionDot, _)) => ast::AccessOp::Optional,
                _ => break,
            };
            let (_, sp) = self.parse()?;
            let access = self.parse_access()?;
            let span = sp.combine(access.span());
            path.push(ast::Member { op, access, span });
''')]),
 ("q8_parse_eat", [(PA, '''            if !self.is_next(Token::Comma)? {
                break;
            }
            self.expect(Token::Comma)?;
        }
''', '''            if !self.eat(Token::Comma)? {
                break;
            }
        }
'''), (PA, '''        if !self.is_next(Token::Comma)? {
            return Ok(ast::LoopVars::Item(key));
        }
        self.expect(Token::Comma)?;
''', '''        if !self.eat(Token::Comma)? {
            return Ok(ast::LoopVars::Item(key));
        }
'''), (PA, '''        while self.is_next(Token::Pipe)? {
            self.expect(Token::Pipe)?;
''', '''        while self.eat(Token::Pipe)? {
'''), (PA, '''    /// Returns a copy of the next token''', '''    /// Consumes the next token if it is equal to the provided one.
    fn eat(&mut self, token: Token) -> Result<bool> {
        match self.peek()? {
            Some((tk, _)) if tk == token => {
                self.next()?;
                Ok(true)
            }
            _ => Ok(false),
        }
    }

    /// Returns a copy of the next token''')]),
 ("q8_parse_escape_fn", [(PA, '''                        let c = match esc {
                            'n' => '\\n',
                            'r' => '\\r',
                            't' => '\\t',
                            '\\\\' => '\\\\',
                            '"' => '"',
                            _ => {
                                let j = iter.next().unwrap().0;
                                return Err(Error::syntax(
                                    "unknown escape character",
                                    self.source(),
                                    i..j,
                                ));
                            }
                        };
                        string.push(c);
''', '''                        match unescape(esc) {
                            Some(c) => string.push(c),
                            None => {
                                let j = iter.next().unwrap().0;
                                return Err(Error::syntax(
                                    "unknown escape character",
                                    self.source(),
                                    i..j,
                                ));
                            }
                        }
'''), (PA, '''impl Keyword {
''', '''/// The character that a character stands for after a backslash.
fn unescape(c: char) -> Option<char> {
    Some(match c {
        '"' | '\\\\' => c,
        'n' => '\\n',
        'r' => '\\r',
        't' => '\\t',
        _ => return None,
    })
}

impl Keyword {
''')]),
 ("q8_parse_radix_fn", [(PA, '''        let digits = raw.as_bytes();
        let (i, radix) = match digits {
            [b'0', b'b', ..] => (2, 2),
            [b'0', b'o', ..] => (2, 8),
            [b'0', b'x', ..] => (2, 16),
            _ => (0, 10),
        };
        let int = digits[i..]
            .iter()
            .enumerate()
            .filter(|(_, &d)| d != b'_')
            .try_fold(0i64, |acc, (j, &d)| {
                let x = (d as char).to_digit(radix).ok_or_else(|| {
                    let m = span.n - raw.len() + i + j;
                    Error::syntax(
                        format!("invalid digit for base {radix} literal"),
                        self.source(),
                        m..m + 1,
                    )
                })?;
                let err = || {
                    Error::syntax(
                        format!("base {radix} literal out of range for 64-bit integer"),
                        self.source(),
                        span,
                    )
                };
                let value = acc.checked_mul(radix.into()).ok_or_else(err)?;
                match sign {
                    Sign::Pos => value.checked_add(x.into()),
                    Sign::Neg => value.checked_sub(x.into()),
                }
                .ok_or_else(err)
            })?;
        let value = Value::Integer(int);
''', '''        let digits = raw.as_bytes();
        let (i, radix) = radix_of(digits);
        let mut int = 0i64;
        for (j, &d) in digits[i..].iter().enumerate() {
            if d == b'_' {
                continue;
            }
            let x = match (d as char).to_digit(radix) {
                Some(x) => i64::from(x),
                None => {
                    let m = span.n - raw.len() + i + j;
                    return Err(Error::syntax(
                        format!("invalid digit for base {radix} literal"),
                        self.source(),
                        m..m + 1,
                    ));
                }
            };
            int = int
                .checked_mul(i64::from(radix))
                .and_then(|value| match sign {
                    Sign::Pos => value.checked_add(x),
                    Sign::Neg => value.checked_sub(x),
                })
                .ok_or_else(|| {
                    Error::syntax(
                        format!("base {radix} literal out of range for 64-bit integer"),
                        self.source(),
                        span,
                    )
                })?;
        }
        let value = Value::Integer(int);
'''), (PA, '''impl Keyword {
''', '''/// The length of the prefix and the base it stands for.
fn radix_of(digits: &[u8]) -> (usize, u32) {
    if digits.starts_with(b"0b") {
        (2, 2)
    } else if digits.starts_with(b"0o") {
        (2, 8)
    } else if digits.starts_with(b"0x") {
        (2, 16)
    } else {
        (0, 10)
    }
}

impl Keyword {
''')]),
 ("q8_lex_trim_fn", [(LX, '''        let mut trim_raw_token = |mut i, mut j, right_trim| {
            if right_trim {
                j = i + self.source[i..j].trim_end().len();
            }
            if self.left_trim {
                self.left_trim = false;
                let s = &self.source[i..j];
                i += s.len() - s.trim_start().len();
            }
            Ok(Some((Token::Raw, Span::from(i..j))))
        };

''', ''), (LX, '''                    self.next = lex(j, k)?;
                    trim_raw_token(i, j, trim)
''', '''                    self.next = lex(j, k)?;
                    Ok(Some(self.raw_token(i, j, trim)))
'''), (LX, '''                self.cursor = j;
                trim_raw_token(i, j, false)
            }
        }
    }
''', '''                self.cursor = j;
                Ok(Some(self.raw_token(i, j, false)))
            }
        }
    }

    fn raw_token(&mut self, i: usize, j: usize, right_trim: bool) -> (Token, Span) {
        let source = self.source;
        let (mut m, mut n) = (i, j);
        if right_trim {
            n = m + source[m..n].trim_end().len();
        }
        if std::mem::replace(&mut self.left_trim, false) {
            let raw = &source[m..n];
            m += raw.len() - raw.trim_start().len();
        }
        (Token::Raw, Span::from(m..n))
    }
''')]),
 ("q8_lex_end_check", [(LX, '''                if tk.is_begin_tag() {
                    return Err(self.err_unclosed(begin, end));
                }
                if tk != end {
                    return Err(self.err_unexpected_token(tk, i..j));
                }

                // A matching end tag!''', '''                self.check_end(tk, begin, end, i..j)?;

                // A matching end tag!'''), (LX, '''                if tk.is_begin_tag() {
                    return Err(self.err_unclosed(begin, end));
                }
                if tk != end {
                    return Err(self.err_unexpected_token(tk, j..k));
                }
''', '''                self.check_end(tk, begin, end, j..k)?;
'''), (LX, '''    fn err_unclosed(''', '''    /// Checks that a tag is the expected end tag.
    fn check_end(&self, tk: Token, begin: Span, end: Token, span: impl Into<Span>) -> Result<()> {
        if tk == end {
            Ok(())
        } else if tk.is_begin_tag() {
            Err(self.err_unclosed(begin, end))
        } else {
            Err(self.err_unexpected_token(tk, span))
        }
    }

    fn err_unclosed(''')]),
 ("q8_lex_while_find", [(LX, '''    fn lex_while<I, P>(&mut self, mut iter: I, pred: P) -> usize
    where
        I: Iterator<Item = (usize, char)> + Clone,
        P: Fn(char) -> bool,
    {
        loop {
            match iter.clone().next() {
                Some((_, c)) if pred(c) => {
                    iter.next().unwrap();
                }
                Some((j, _)) => return j,
                None => return self.source.len(),
            }
        }
    }
''', '''    fn lex_while<I, P>(&mut self, mut iter: I, pred: P) -> usize
    where
        I: Iterator<Item = (usize, char)> + Clone,
        P: Fn(char) -> bool,
    {
        iter.find(|(_, c)| !pred(*c))
            .map_or(self.source.len(), |(j, _)| j)
    }
''')]),
 ("q8_lex_state_merge", [(LX, '''    /// Between expression or block tags.
    Block {
        /// The span of the begin tag.
        begin: Span,
        /// The end token we are expecting.
        end: Token,
    },

    /// Between expression or block tags and within a path.
    BlockPath {
        /// The span of the begin tag.
        begin: Span,
        /// The end token we are expecting.
        end: Token,
    },
''', '''    /// Between expression or block tags.
    Block {
        /// The span of the begin tag.
        begin: Span,
        /// The end token we are expecting.
        end: Token,
        /// Whether we are within a path.
        path: BlockState,
    },
'''), (LX, '''            State::Block { begin, end } => self.lex_block(BlockState::Unknown, begin, end, i),
            State::BlockPath { begin, end } => self.lex_block(BlockState::Path, begin, end, i),
''', '''            State::Block { begin, end, path } => self.lex_block(path, begin, end, i),
'''), (LX, '''                        State::Block { begin, end }
''', '''                        State::Block {
                            begin,
                            end,
                            path: BlockState::Unknown,
                        }
'''), (LX, '''                self.state = State::BlockPath { begin, end };
''', '''                let path = BlockState::Path;
                self.state = State::Block { begin, end, path };
'''), (LX, '''                self.state = State::Block { begin, end };
''', '''                let path = BlockState::Unknown;
                self.state = State::Block { begin, end, path };
''')]),
 ("q8_ac_fail_method", [(BU, '''                let fail = {
                    let mut id = self.state(curr).fail;
                    while self.state(id).next_state(byte) == FAIL {
                        id = self.state(id).fail;
                    }
                    self.state(id).next_state(byte)
                };
''', '''                let fail = self.follow(self.state(curr).fail, byte);
'''), (BU, '''    fn copy_matches(&mut self''', '''    /// Follows failure transitions until there is one for the byte.
    fn follow(&self, mut id: S, byte: u8) -> S {
        loop {
            let next = self.state(id).next_state(byte);
            if next != FAIL {
                return next;
            }
            id = self.state(id).fail;
        }
    }

    fn copy_matches(&mut self''')]),
 ("q8_ac_fill", [(BU, '''        let start = self.start_mut();
        for byte in all() {
            if start.next_state(byte) == FAIL {
                start.set_transition(byte, START);
            }
        }
''', '''        self.start_mut().replace_transitions(FAIL, START);
'''), (BU, '''        let dead = self.state_mut(DEAD);
        for byte in all() {
            if dead.next_state(byte) == FAIL {
                dead.set_transition(byte, DEAD);
            }
        }
''', '''        self.state_mut(DEAD).replace_transitions(FAIL, DEAD);
'''), (BU, '''            let start = self.start_mut();
            for byte in all() {
                if start.next_state(byte) == START {
                    start.set_transition(byte, DEAD);
                }
            }
''', '''            self.start_mut().replace_transitions(START, DEAD);
'''), (BU, '''    fn get_longest_match_len''', '''    fn replace_transitions(&mut self, from: S, to: S) {
        for byte in all() {
            if self.next_state(byte) == from {
                self.set_transition(byte, to);
            }
        }
    }

    fn get_longest_match_len''')]),
 ("q8_ac_depth_or_else", [(BU, '''                let next_match_depth = match match_depth {
                    Some(d) => Some(d),
                    None if self.state(next).is_match() => {
                        let depth = self.state(next).depth
                            - self.state(next).get_longest_match_len().unwrap()
                            + 1;
                        Some(depth)
                    }
                    None => None,
                };
''', '''                let next_match_depth = match_depth.or_else(|| {
                    let state = self.state(next);
                    if !state.is_match() {
                        return None;
                    }
                    Some(state.depth - state.get_longest_match_len().unwrap() + 1)
                });
''')]),
 ("q8_syntax_push_tags", [(SY, '''        if let Some((begin, end)) = self.expr {
            patterns.push((Kind::BeginExpr, begin.into()));
            patterns.push((Kind::EndExpr, end.into()));
            patterns.push((Kind::BeginExprTrim, format!("{begin}-")));
            patterns.push((Kind::EndExprTrim, format!("-{end}")));
        };
        if let Some((begin, end)) = self.block {
            patterns.push((Kind::BeginBlock, begin.into()));
            patterns.push((Kind::EndBlock, end.into()));
            patterns.push((Kind::BeginBlockTrim, format!("{begin}-")));
            patterns.push((Kind::EndBlockTrim, format!("-{end}")));
        }
        if let Some((begin, end)) = self.comment {
            patterns.push((Kind::BeginComment, begin.into()));
            patterns.push((Kind::EndComment, end.into()));
            patterns.push((Kind::BeginCommentTrim, format!("{begin}-")));
            patterns.push((Kind::EndCommentTrim, format!("-{end}")));
        }
''', '''        let mut add = |tags: Option<(&str, &str)>, [b, e, bt, et]: [Kind; 4]| {
            if let Some((begin, end)) = tags {
                patterns.push((b, begin.to_string()));
                patterns.push((e, end.to_string()));
                patterns.push((bt, format!("{begin}-")));
                patterns.push((et, format!("-{end}")));
            }
        };
        add(
            self.expr,
            [
                Kind::BeginExpr,
                Kind::EndExpr,
                Kind::BeginExprTrim,
                Kind::EndExprTrim,
            ],
        );
        add(
            self.block,
            [
                Kind::BeginBlock,
                Kind::EndBlock,
                Kind::BeginBlockTrim,
                Kind::EndBlockTrim,
            ],
        );
        add(
            self.comment,
            [
                Kind::BeginComment,
                Kind::EndComment,
                Kind::BeginCommentTrim,
                Kind::EndCommentTrim,
            ],
        );
''')]),
 ("q8_err_located", [(ER, '''        Self {
            kind: ErrorKind::Syntax,
            name: None,
            reason: Some(reason.into()),
            pretty: Some(Pretty::build(source, span.into())),
        }
''', '''        Self::located(ErrorKind::Syntax, Some(reason.into()), source, span.into())
'''), (ER, '''        Self {
            kind: ErrorKind::Render,
            name: None,
            reason: Some(reason.into()),
            pretty: Some(Pretty::build(source, span.into())),
        }
''', '''        Self::located(ErrorKind::Render, Some(reason.into()), source, span.into())
'''), (ER, '''        Self {
            kind: ErrorKind::Format,
            name: None,
            reason: err.message(),
            pretty: Some(Pretty::build(source, span.into())),
        }
    }
''', '''        Self::located(ErrorKind::Format, err.message(), source, span.into())
    }

    fn located(kind: ErrorKind, reason: Option<String>, source: &str, span: Span) -> Self {
        let pretty = Pretty::build(source, span);
        Self {
            kind,
            name: None,
            reason,
            pretty: Some(pretty),
        }
    }
''')]),
 ("q8_err_writeln", [(ER, '''        write!(
            f,
            "\\n\\n {z:pad$}--> {name}:{num}:{col}\\
             \\n {z:pad$} {pipe}\\
             \\n {num:>} {pipe} {text}\\
             \\n {z:pad$} {pipe} {indent}{underline}{extra}\\
             \\n {z:pad$} {pipe}\\
             \\n {z:pad$} {equals} reason: {reason}\\n",
        )
''', '''        write!(f, "\\n\\n {z:pad$}--> {name}:{num}:{col}")?;
        write!(f, "\\n {z:pad$} {pipe}")?;
        write!(f, "\\n {num:>} {pipe} {text}")?;
        write!(f, "\\n {z:pad$} {pipe} {indent}{underline}{extra}")?;
        write!(f, "\\n {z:pad$} {pipe}")?;
        writeln!(f, "\\n {z:pad$} {equals} reason: {reason}")
''')]),
 ("q8_err_pretty_line", [(ER, '''        let (ln, col) = to_ln_col(&lines, span.m);
        let width = max(1, display_width(&source[span]));
        let text = lines
            .get(ln)
            .unwrap_or_else(|| lines.last().unwrap())
            .to_string();
''', '''        let width = display_width(&source[span]).max(1);
        let (ln, col) = to_ln_col(&lines, span.m);
        let text = match lines.get(ln) {
            Some(line) => line.to_string(),
            None => lines.last().unwrap().to_string(),
        };
''')]),
 ("q8_fmt_write_bytes", [(FM, '''        self.writer.write_all(s.as_bytes()).map_err(|e| {
            self.err = Some(e);
            fmt::Error
        })
''', '''        self.write_bytes(s.as_bytes())
'''), (FM, '''        self.writer
            .write_all(c.encode_utf8(&mut [0; 4]).as_bytes())
            .map_err(|e| {
                self.err = Some(e);
                fmt::Error
            })
''', '''        let mut buf = [0; 4];
        self.write_bytes(c.encode_utf8(&mut buf).as_bytes())
'''), (FM, '''    pub fn take_err(''', '''    fn write_bytes(&mut self, bytes: &[u8]) -> fmt::Result {
        match self.writer.write_all(bytes) {
            Ok(()) => Ok(()),
            Err(e) => {
                self.err = Some(e);
                Err(fmt::Error)
            }
        }
    }

    pub fn take_err(''')]),
 ("q8_render_globals_with", [(RM, '''        let Self { globals, inner } = self;
        match globals {
            Globals::Owned(result) => {
                let value = result?;
                let stack = Stack::new(&value);
                to_writer(inner, stack, w)
            }
            Globals::Borrowed(value) => {
                let stack = Stack::new(value);
                to_writer(inner, stack, w)
            }
            Globals::Fn(value_fn) => {
                let stack = Stack::with_value_fn(&value_fn);
                to_writer(inner, stack, w)
            }
        }
''', '''        let Self { globals, inner } = self;
        let owned;
        let function;
        let stack = match globals {
            Globals::Owned(result) => {
                owned = result?;
                Stack::new(&owned)
            }
            Globals::Borrowed(value) => Stack::new(value),
            Globals::Fn(value_fn) => {
                function = value_fn;
                Stack::with_value_fn(&function)
            }
        };
        to_writer(inner, stack, w)
''')]),
 ("q8_compile_if_method", [(CM, '''                self.compile_expr(cond);

                // then branch
                let instr = if not {
                    Instr::JumpIfTrue(FIXME)
                } else {
                    Instr::JumpIfFalse(FIXME)
                };
                let j = self.push(instr);
                self.compile_scope(then_branch);

                match else_branch {
                    Some(else_branch) => {
                        // else branch
                        let j2 = self.push(Instr::Jump(FIXME));
                        self.update_jump(j);
                        self.compile_scope(else_branch);
                        self.update_jump(j2)
                    }
                    None => {
                        self.update_jump(j);
                    }
                }
            }
''', '''                self.compile_if_else(not, cond, then_branch, else_branch);
            }
'''), (CM, '''    fn compile_expr(&mut self, expr: ast::Expr) {''', '''    fn compile_if_else(
        &mut self,
        not: bool,
        cond: ast::Expr,
        then_branch: ast::Scope,
        else_branch: Option<ast::Scope>,
    ) {
        self.compile_expr(cond);
        let mut pending = match not {
            true => self.push(Instr::JumpIfTrue(FIXME)),
            false => self.push(Instr::JumpIfFalse(FIXME)),
        };
        self.compile_scope(then_branch);
        if let Some(else_branch) = else_branch {
            let end = self.push(Instr::Jump(FIXME));
            self.update_jump(pending);
            self.compile_scope(else_branch);
            pending = end;
        }
        self.update_jump(pending);
    }

    fn compile_expr(&mut self, expr: ast::Expr) {''')]),
 ("q8_compile_jump_target", [(CM, '''        let n = self.instrs.len();
        let j = match &mut self.instrs[i] {
            Instr::Jump(j) | Instr::JumpIfTrue(j) | Instr::JumpIfFalse(j) | Instr::LoopNext(j) => j,
            _ => panic!("not a jump instr"),
        };
        *j = n;
''', '''        let target = self.instrs.len();
        match &mut self.instrs[i] {
            Instr::Jump(j) => *j = target,
            Instr::JumpIfTrue(j) => *j = target,
            Instr::JumpIfFalse(j) => *j = target,
            Instr::LoopNext(j) => *j = target,
            _ => panic!("not a jump instr"),
        }
''')]),
 ("q8_filters_err_msg", [(FI, '''    let msg = match err {
        args::Error::Type(exp, got) => {
            format!("filter expected {exp} value, found {got}")
        }
        args::Error::Reference(_) => {
            unreachable!()
        }
        args::Error::TryFromInt(want, value) => {
            format!("filter expected {want} value, but `{value}` is out of range",)
        }
    };
    Error::render(msg, source, span)
''', '''    let message = mismatch(err, "value").unwrap_or_else(|| unreachable!());
    Error::render(message, source, span)
'''), (FI, '''    let msg = match err {
        args::Error::Type(exp, got) => {
            format!("filter expected {exp} argument, found {got}")
        }
        args::Error::Reference(got) => {
            format!("filter expected reference argument but this {got} can only be passed as owned",)
        }
        args::Error::TryFromInt(want, value) => {
            format!("filter expected {want} argument, but `{value}` is out of range",)
        }
    };
    Error::render(msg, source, span)
}
''', '''    let msg = match err {
        args::Error::Reference(got) => {
            format!("filter expected reference argument but this {got} can only be passed as owned",)
        }
        err => mismatch(err, "argument").unwrap(),
    };
    Error::render(msg, source, span)
}

fn mismatch(err: args::Error, what: &str) -> Option<String> {
    match err {
        args::Error::Type(exp, got) => Some(format!("filter expected {exp} {what}, found {got}")),
        args::Error::TryFromInt(want, value) => Some(format!(
            "filter expected {want} {what}, but `{value}` is out of range",
        )),
        args::Error::Reference(_) => None,
    }
}
''')]),
 ("q8_filters_get_arg", [(FI, '''    match &args[i] {
        BaseExpr::Var(var) => match stack.lookup_var(source, var)? {
            ValueCow::Borrowed(v) => {
                T::from_value_ref(v).map_err(|e| err_expected_arg(e, source, var.span()))
            }
            ValueCow::Owned(v) => {
                T::from_value(v).map_err(|e| err_expected_arg(e, source, var.span()))
            }
        },
        BaseExpr::Literal(lit) => {
            T::from_value_ref(&lit.value).map_err(|e| err_expected_arg(e, source, lit.span))
        }
    }
''', '''    let (result, span) = match &args[i] {
        BaseExpr::Literal(lit) => (T::from_value_ref(&lit.value), lit.span),
        BaseExpr::Var(var) => {
            let span = var.span();
            match stack.lookup_var(source, var)? {
                ValueCow::Borrowed(v) => (T::from_value_ref(v), span),
                ValueCow::Owned(v) => (T::from_value(v), span),
            }
        }
    };
    result.map_err(|err| err_expected_arg(err, source, span))
''')]),
 ("q8_ser_newtype_from", [(SR, '''        let mut map = BTreeMap::new();
        map.insert(String::from(variant), to_value(value)?);
        Ok(Value::Map(map))
''', '''        let value = value.serialize(Serializer)?;
        Ok(Value::Map(BTreeMap::from([(variant.to_owned(), value)])))
''')]),
 ("q8_ser_u64_match", [(SR, '''        Ok(Value::Integer(i64::try_from(v).map_err(|_| {
            Error::custom("out of range integral type conversion attempted")
        })?))
''', '''        match i64::try_from(v) {
            Ok(i) => Ok(Value::Integer(i)),
            Err(_) => Err(Error::custom(
                "out of range integral type conversion attempted",
            )),
        }
''')]),
 ("q8_search_starts_filter", [(SE, '''        let (kind, i, j) = self.find_at(haystack, at)?;
        if at == i {
            Some((kind, j))
        } else {
            None
        }
''', '''        self.find_at(haystack, at)
            .filter(|&(_, i, _)| i == at)
            .map(|(kind, _, j)| (kind, j))
''')]),
]
