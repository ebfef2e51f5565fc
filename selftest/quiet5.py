"""Behaviour-preserving edits, fifth set: larger rewrites."""
CO, IT, ST = "src/render/core.rs", "src/render/iter.rs", "src/render/stack.rs"
AC, BU = "src/compile/search/ahocorasick/mod.rs", "src/compile/search/ahocorasick/build.rs"
LX, PA, CM = "src/compile/lex.rs", "src/compile/parse.rs", "src/compile/mod.rs"
ER, LI, RM = "src/error.rs", "src/lib.rs", "src/render/mod.rs"
E = [
 ("ac_find_foriter", [(AC, '''        while at < haystack.len() {
            state = self.next_state(state, haystack[at]);
            debug_assert!(
                state != FAIL,
                "an automaton should never return fail state for next state"
            );
            at += 1;
''', '''        for &byte in haystack.get(at..).unwrap_or(&[]) {
            state = self.next_state(state, byte);
            debug_assert!(
                state != FAIL,
                "an automaton should never return fail state for next state"
            );
            at += 1;
''')]),
 ("ac_find_match_or", [(AC, '''            if let Some(m) = self.get_match(state, 0, at) {
                last_match = Some(m);
            }
''', '''            last_match = self.get_match(state, 0, at).or(last_match);
''')]),
 ("ac_next_recursive", [(AC, '''    fn next_state(&self, mut id: S, byte: u8) -> S {
        loop {
            let state = self.state(id);
            let next = state.next_state(byte);
            if next != FAIL {
                return next;
            }
            id = state.fail;
        }
    }
''', '''    fn next_state(&self, mut id: S, byte: u8) -> S {
        while self.state(id).next_state(byte) == FAIL {
            id = self.state(id).fail;
        }
        self.state(id).next_state(byte)
    }
''')]),
 ("ac_build_close_helper", [(BU, '''        let start = self.start_mut();
        for byte in all() {
            if start.next_state(byte) == FAIL {
                start.set_transition(byte, START);
            }
        }
''', '''        self.close(START, FAIL, START);
'''), (BU, '''        let dead = self.state_mut(DEAD);
        for byte in all() {
            if dead.next_state(byte) == FAIL {
                dead.set_transition(byte, DEAD);
            }
        }
''', '''        self.close(DEAD, FAIL, DEAD);
'''), (BU, '''            let start = self.start_mut();
            for byte in all() {
                if start.next_state(byte) == START {
                    start.set_transition(byte, DEAD);
                }
            }
''', '''            self.close(START, START, DEAD);
'''), (BU, '''    fn copy_matches(&mut self, src: S, dst: S) {
''', '''    /// Redirects the transitions of a state which lead to `from`.
    fn close(&mut self, id: S, from: S, to: S) {
        let state = self.state_mut(id);
        for byte in all() {
            if state.next_state(byte) == from {
                state.set_transition(byte, to);
            }
        }
    }

    fn copy_matches(&mut self, src: S, dst: S) {
''')]),
 ("ac_trie_helper", [(BU, '''                let next = self.state(id).next_state(byte);
                if next == FAIL {
                    let next = self.push_state(depth + 1);
                    self.state_mut(id).set_transition(byte, next);
                    id = next;
                } else {
                    id = next;
                }
''', '''                id = match self.state(id).next_state(byte) {
                    FAIL => {
                        let next = self.push_state(depth + 1);
                        self.state_mut(id).set_transition(byte, next);
                        next
                    }
                    next => next,
                };
''')]),
 ("ac_fill_follow", [(BU, '''                let fail = {
                    let mut id = self.state(curr).fail;
                    while self.state(id).next_state(byte) == FAIL {
                        id = self.state(id).fail;
                    }
                    self.state(id).next_state(byte)
                };
''', '''                let fail = self.follow(self.state(curr).fail, byte);
'''), (BU, '''    fn copy_matches(&mut self, src: S, dst: S) {
''', '''    fn follow(&self, mut id: S, byte: u8) -> S {
        loop {
            let next = self.state(id).next_state(byte);
            if next != FAIL {
                return next;
            }
            id = self.state(id).fail;
        }
    }

    fn copy_matches(&mut self, src: S, dst: S) {
''')]),
 ("ac_fill_depth_or", [(BU, '''                let next_match_depth = match match_depth {
                    Some(d) => Some(d),
                    None if self.state(next).is_match() => {
                        let depth = self.state(next).depth
                            - self.state(next).get_longest_match_len().unwrap()
                            + 1;
                        Some(depth)
                    }
                    None => None,
                };
''', '''                let next_match_depth = match_depth.or_else(|| {
                    let state = self.state(next);
                    state
                        .get_longest_match_len()
                        .map(|len| state.depth - len + 1)
                });
''')]),
 ("ac_fill_then", [(BU, '''                let match_depth = if self.start().is_match() {
                    Some(0)
                } else {
                    None
                };
                queue.push_back((next, match_depth));
''', '''                queue.push_back((next, self.start().is_match().then_some(0)));
''')]),
 ("core_fail_helper", [(CO, '''            let state = self.render_one(f, t, pc).map_err(|e| match tname {
                Some(s) => e.with_template_name(s.to_owned()),
                None => e,
            })?;
''', '''            let state = match self.render_one(f, t, pc) {
                Ok(state) => state,
                Err(e) => return Err(name_error(e, *tname)),
            };
'''), (CO, '''                RenderState::Include { template_name } => {
                    let template =
                        self.get_template(&t.source, template_name)
                            .map_err(|e| match tname {
                                Some(s) => e.with_template_name(s.to_owned()),
                                None => e,
                            })?;
''', '''                RenderState::Include { template_name } => {
                    let template = match self.get_template(&t.source, template_name) {
                        Ok(template) => template,
                        Err(e) => return Err(name_error(e, *tname)),
                    };
'''), (CO, '''                    let template =
                        self.get_template(&t.source, template_name)
                            .map_err(|e| match tname {
                                Some(s) => e.with_template_name(s.to_owned()),
                                None => e,
                            })?;
                    self.stack.push(State::Boundary);
''', '''                    let template = match self.get_template(&t.source, template_name) {
                        Ok(template) => template,
                        Err(e) => return Err(name_error(e, *tname)),
                    };
                    self.stack.push(State::Boundary);
'''), (CO, '''impl<'render, 'stack> RendererImpl<'render, 'stack>
''', '''fn name_error(err: Error, name: Option<&str>) -> Error {
    match name {
        Some(name) => err.with_template_name(name.to_owned()),
        None => err,
    }
}

impl<'render, 'stack> RendererImpl<'render, 'stack>
''')]),
 ("core_frame_struct", [(CO, '''        let mut templates = vec![(self.inner.template, self.inner.template_name, 0, false)];
''', '''        struct Frame<'t> {
            template: &'t Template<'t>,
            name: Option<&'t str>,
            pc: usize,
            has_scope: bool,
        }

        let mut templates = vec![Frame {
            template: self.inner.template,
            name: self.inner.template_name,
            pc: 0,
            has_scope: false,
        }];
'''), (CO, '''        while let Some((t, tname, pc, has_scope)) = templates.last_mut() {
''', '''        while let Some(Frame {
            template: t,
            name: tname,
            pc,
            has_scope,
        }) = templates.last_mut()
        {
'''), (CO, '''                    templates.push((template, Some(template_name.as_str()), 0, false));
''', '''                    templates.push(Frame {
                        template,
                        name: Some(template_name.as_str()),
                        pc: 0,
                        has_scope: false,
                    });
'''), (CO, '''                    templates.push((template, Some(template_name.as_str()), 0, true));
''', '''                    templates.push(Frame {
                        template,
                        name: Some(template_name.as_str()),
                        pc: 0,
                        has_scope: true,
                    });
''')]),
 ("core_unscope_helper", [(CO, '''                    if *has_scope {
                        self.stack.pop_scope();
                        self.stack.pop_boundary();
                    }
                    templates.pop();
''', '''                    if *has_scope {
                        self.leave();
                    }
                    templates.pop();
'''), (CO, '''                    self.stack.push(State::Boundary);
                    self.stack.push(State::Scope(globals));
''', '''                    self.enter(globals);
'''), (CO, '''    fn get_template(
''', '''    fn enter(&mut self, globals: ValueCow<'stack>) {
        self.stack.push(State::Boundary);
        self.stack.push(State::Scope(globals));
    }

    fn leave(&mut self) {
        self.stack.pop_scope();
        self.stack.pop_boundary();
    }

    fn get_template(
''')]),
 ("core_get_template_match", [(CO, '''        if let Some(template_fn) = &mut self.inner.template_fn {
            template_fn(name.as_str())
                .map(|t| &t.template)
                .map_err(|e| Error::render(e, source, name.span))
        } else {
            self.inner
                .engine
                .templates
                .get(name.as_str())
                .ok_or_else(|| Error::render("unknown template", source, name.span))
        }
''', '''        let found = match self.inner.template_fn.as_mut() {
            Some(template_fn) => template_fn(name.as_str()).map(|t| &t.template),
            None => match self.inner.engine.templates.get(name.as_str()) {
                Some(template) => Ok(template),
                None => Err("unknown template".to_owned()),
            },
        };
        found.map_err(|reason| Error::render(reason, source, name.span))
''')]),
 ("core_jump_cond", [(CO, '''                Instr::JumpIfTrue(j) => {
                    if expr.take().unwrap().as_bool() {
                        *pc = *j;
                        continue;
                    }
                }

                Instr::JumpIfFalse(j) => {
                    if !expr.take().unwrap().as_bool() {
                        *pc = *j;
                        continue;
                    }
                }
''', '''                Instr::JumpIfTrue(j) | Instr::JumpIfFalse(j) => {
                    let want = matches!(instr, Instr::JumpIfTrue(_));
                    let cond = expr.take().unwrap().as_bool();
                    if cond == want {
                        *pc = *j;
                        continue;
                    }
                }
''')]),
 ("core_pc_first", [(CO, '''                Instr::Jump(j) => {
                    *pc = *j;
                    continue;
                }
''', '''                &Instr::Jump(j) => {
                    *pc = j;
                    continue;
                }
'''), (CO, '''                    if self.stack.last_loop_state_mut().iterate().is_none() {
                        self.stack.pop_loop_state();
                        *pc = *j;
                        continue;
                    }
''', '''                    match self.stack.last_loop_state_mut().iterate() {
                        Some(()) => {}
                        None => {
                            self.stack.pop_loop_state();
                            *pc = *j;
                            continue;
                        }
                    }
''')]),
 ("iter_err_fn", [(IT, '''        let human = iterable.human();
        let err = || {
            Error::render(
                format!("expected iterable, but expression evaluated to {human}"),
                source,
                span,
            )
        };
''', '''        let human = iterable.human();
        let err = || not_iterable(human, source, span);
'''), (IT, '''impl<'a> LoopState<'a> {
''', '''fn not_iterable(human: &str, source: &str, span: Span) -> Error {
    let reason = format!("expected iterable, but expression evaluated to {human}");
    Error::render(reason, source, span)
}

impl<'a> LoopState<'a> {
''')]),
 ("iter_new_split", [(IT, '''        match iterable {
            ValueCow::Borrowed(v) => match v {
                Value::List(list) => {
                    let item = unpack_list_item(vars)?;
                    Ok(Self::ListBorrowed {
                        i: &source[item.span],
                        iter: list.iter().enumerate(),
                        value: None,
                    })
                }

                Value::Map(map) => {
                    let kv = unpack_map_item(vars)?;
                    Ok(Self::MapBorrowed {
                        k: &source[kv.key.span],
                        v: &source[kv.value.span],
                        iter: map.iter().enumerate(),
                        value: None,
                    })
                }
                _ => Err(err()),
            },

            ValueCow::Owned(v) => match v {
                Value::List(list) => {
                    let item = unpack_list_item(vars)?;
                    Ok(Self::ListOwned {
                        i: &source[item.span],
                        iter: list.into_iter().enumerate(),
                        value: None,
                    })
                }

                Value::Map(map) => {
                    let kv = unpack_map_item(vars)?;
                    Ok(Self::MapOwned {
                        k: &source[kv.key.span],
                        v: &source[kv.value.span],
                        iter: map.into_iter().enumerate(),
                        value: None,
                    })
                }
                _ => Err(err()),
            },
        }
''', '''        let state = match iterable {
            ValueCow::Borrowed(Value::List(list)) => {
                let i = &source[unpack_list_item(vars)?.span];
                let iter = list.iter().enumerate();
                Self::ListBorrowed {
                    i,
                    iter,
                    value: None,
                }
            }
            ValueCow::Owned(Value::List(list)) => {
                let i = &source[unpack_list_item(vars)?.span];
                let iter = list.into_iter().enumerate();
                Self::ListOwned {
                    i,
                    iter,
                    value: None,
                }
            }
            ValueCow::Borrowed(Value::Map(map)) => {
                let ast::KeyValue { key, value, .. } = unpack_map_item(vars)?;
                Self::MapBorrowed {
                    k: &source[key.span],
                    v: &source[value.span],
                    iter: map.iter().enumerate(),
                    value: None,
                }
            }
            ValueCow::Owned(Value::Map(map)) => {
                let ast::KeyValue { key, value, .. } = unpack_map_item(vars)?;
                Self::MapOwned {
                    k: &source[key.span],
                    v: &source[value.span],
                    iter: map.into_iter().enumerate(),
                    value: None,
                }
            }
            _ => return Err(err()),
        };
        Ok(state)
''')]),
 ("iter_iterate_bool", [(IT, '''            Self::ListBorrowed { iter, value, .. } => {
                *value = Some(iter.next()?);
            }
            Self::ListOwned { iter, value, .. } => {
                *value = Some(iter.next()?);
            }
''', '''            Self::ListBorrowed { iter, value, .. } => match iter.next() {
                Some(next) => *value = Some(next),
                None => return None,
            },
            Self::ListOwned { iter, value, .. } => {
                let next = iter.next()?;
                value.replace(next);
            }
''')]),
 ("iter_resolve_fn", [(IT, '''        macro_rules! resolve {
            ($v:expr) => {{
                let mut v = $v;
                for m in var.rest() {
                    v = match lookup(source, v, m)? {
                        Some(v) => v,
                        None => return Ok(Some(ValueCow::Owned(Value::None))),
                    };
                }
                v
            }};
        }
''', '''        macro_rules! resolve {
            ($v:expr) => {
                match resolve(source, $v, var.rest())? {
                    Some(v) => v,
                    None => return Ok(Some(ValueCow::Owned(Value::None))),
                }
            };
        }
'''), (IT, '''impl<'a> LoopState<'a> {
''', '''fn resolve<'v>(source: &str, mut v: &'v Value, path: &[ast::Member]) -> Result<Option<&'v Value>> {
    for m in path {
        match lookup(source, v, m)? {
            Some(next) => v = next,
            None => return Ok(None),
        }
    }
    Ok(Some(v))
}

impl<'a> LoopState<'a> {
''')]),
 ("iter_loop_member_fn", [(IT, '''        let name = match member.access {
            ast::Access::Index(_) => {
                return Err(Error::render(
                    "cannot index into map with integer",
                    source,
                    member.span,
                ))
            }
            ast::Access::Key(ast::Ident { span }) => &source[span],
        };

        let v = match (&member.op, name) {
            (_, "index") => Value::Integer(i as i64),
            (_, "first") => Value::Bool(i == 0),
            (_, "last") => Value::Bool(rem == 0),
            (ast::AccessOp::Optional, _) => return Ok(Some(ValueCow::Owned(Value::None))),
            (ast::AccessOp::Direct, _) => {
                return Err(Error::render("not found in map", source, member.span))
            }
        };
''', '''        let key = match member.access {
            ast::Access::Key(ident) => ident,
            ast::Access::Index(_) => {
                return Err(Error::render(
                    "cannot index into map with integer",
                    source,
                    member.span,
                ))
            }
        };

        let v = match &source[key.span] {
            "index" => Value::Integer(i as i64),
            "first" => Value::Bool(i == 0),
            "last" => Value::Bool(rem == 0),
            _ => {
                return match member.op {
                    ast::AccessOp::Optional => Ok(Some(ValueCow::Owned(Value::None))),
                    ast::AccessOp::Direct => {
                        Err(Error::render("not found in map", source, member.span))
                    }
                }
            }
        };
''')]),
 ("stack_while_pop", [(ST, '''        for state in self.stack.iter().rev() {
            match state {
''', '''        let mut states = self.stack.iter();
        while let Some(state) = states.next_back() {
            match state {
''')]),
 ("stack_index_loop", [(ST, '''        for state in self.stack.iter().rev() {
            match state {
''', '''        for i in (0..self.stack.len()).rev() {
            match &self.stack[i] {
''')]),
 ("stack_err_fn", [(ST, '''                State::Boundary => {
                    // We've reached the template boundary stop searching
                    break;
                }

                _ => {}
            }
        }
        Err(Error::render(
            "not found in this scope",
            source,
            v.first().span,
        ))
    }
''', '''                State::Boundary => {
                    // We've reached the template boundary stop searching
                    return Err(not_found(source, v));
                }

                State::Var(..) => continue,
            }
        }
        Err(not_found(source, v))
    }
'''), (ST, '''impl<'a> Stack<'a> {
''', '''fn not_found(source: &str, v: &ast::Var) -> Error {
    Error::render("not found in this scope", source, v.first().span)
}

impl<'a> Stack<'a> {
''')]),
 ("stack_fn_helper", [(ST, '''                    let path: Vec<_> = v
                        .path
                        .iter()
                        .map(|member| {
                            let op = match member.op {
                                ast::AccessOp::Direct => ValueAccessOp::Direct,
                                ast::AccessOp::Optional => ValueAccessOp::Optional,
                            };
                            let access = match member.access {
                                ast::Access::Index(a) => ValueAccess::Index(a.value),
                                ast::Access::Key(a) => ValueAccess::Key(&source[a.span]),
                            };
                            ValueMember { op, access }
                        })
                        .collect();
''', '''                    let path: Vec<_> = v.path.iter().map(|m| to_member(source, m)).collect();
'''), (ST, '''impl<'a> Stack<'a> {
''', '''fn to_member<'s>(source: &'s str, member: &ast::Member) -> ValueMember<'s> {
    ValueMember {
        op: match member.op {
            ast::AccessOp::Direct => ValueAccessOp::Direct,
            ast::AccessOp::Optional => ValueAccessOp::Optional,
        },
        access: match member.access {
            ast::Access::Index(a) => ValueAccess::Index(a.value),
            ast::Access::Key(a) => ValueAccess::Key(&source[a.span]),
        },
    }
}

impl<'a> Stack<'a> {
''')]),
 ("lex_next_for", [(LX, '''        loop {
            match self.lex()? {
                Some((tk, sp)) if !tk.is_whitespace() => return Ok(Some((tk, sp))),
                None => return Ok(None),
                _ => continue,
            }
        }
    }
''', '''        let mut next = self.lex()?;
        while matches!(next, Some((tk, _)) if tk.is_whitespace()) {
            next = self.lex()?;
        }
        Ok(next)
    }
''')]),
 ("lex_number_take", [(LX, '''        let j = loop {
            match iter.next() {
                // A sign can be part of the number but not if it is the start
                // of a tag, e.g. `-}}`.
                Some((j, '-' | '+'))
                    if self.engine.searcher.starts_with(self.source, j).is_some() =>
                {
                    break j;
                }
                Some((_, c)) if is_number(c) => {}
                Some((j, _)) => break j,
                None => break self.source.len(),
            }
        };
        (Token::Number, j)
''', '''        let searcher = &self.engine.searcher;
        let mut end = self.source.len();
        while let Some((j, c)) = iter.next() {
            let is_tag = (c == '-' || c == '+') && searcher.starts_with(self.source, j).is_some();
            if is_tag || !is_number(c) {
                end = j;
                break;
            }
        }
        (Token::Number, end)
''')]),
 ("lex_number_find", [(LX, '''        let j = loop {
            match iter.next() {
                // A sign can be part of the number but not if it is the start
                // of a tag, e.g. `-}}`.
                Some((j, '-' | '+'))
                    if self.engine.searcher.starts_with(self.source, j).is_some() =>
                {
                    break j;
                }
                Some((_, c)) if is_number(c) => {}
                Some((j, _)) => break j,
                None => break self.source.len(),
            }
        };
        (Token::Number, j)
''', '''        let searcher = &self.engine.searcher;
        let end = iter.find(|&(j, c)| match c {
            '-' | '+' if searcher.starts_with(self.source, j).is_some() => true,
            c => !is_number(c),
        });
        (Token::Number, end.map_or(self.source.len(), |(j, _)| j))
''')]),
 ("lex_string_flag", [(LX, '''        let mut escaped = false;
        loop {
            match iter.next() {
                None => {
                    return Err(self.err_undelimited_string(i..self.source.len()));
                }
                Some((j, '\\r' | '\\n')) => {
                    return Err(self.err_undelimited_string(i..j));
                }
                Some((j, '"')) if !escaped => {
                    return Ok((Token::String, j + 1));
                }
                Some((_, c)) => {
                    escaped = c == '\\\\' && !escaped;
                }
            }
        }
''', '''        let mut escaped = false;
        for (j, c) in iter.by_ref() {
            match c {
                '\\r' | '\\n' => return Err(self.err_undelimited_string(i..j)),
                '"' if !escaped => return Ok((Token::String, j + 1)),
                '\\\\' => escaped = !escaped,
                _ => escaped = false,
            }
        }
        let end = self.source.len();
        Err(self.err_undelimited_string(i..end))
''')]),
 ("lex_block_char_fn", [(LX, '''                    '.' => (Token::Dot, i + 1),
                    '|' => (Token::Pipe, i + 1),
                    ',' => (Token::Comma, i + 1),
                    ':' => (Token::Colon, i + 1),
                    '+' => (Token::Plus, i + 1),
                    '-' => (Token::Minus, i + 1),
''', '''                    '.' | '|' | ',' | ':' | '+' | '-' => {
                        let tk = match c {
                            '.' => Token::Dot,
                            '|' => Token::Pipe,
                            ',' => Token::Comma,
                            ':' => Token::Colon,
                            '+' => Token::Plus,
                            _ => Token::Minus,
                        };
                        (tk, i + 1)
                    }
''')]),
 ("par_block_arms", [(PA, '''            Keyword::Else => {
                if self.is_next_keyword(Keyword::If)? {
                    self.expect_keyword(Keyword::If)?;
                    let (not, expr) = self.parse_if_cond()?;
                    Ok(Block::ElseIf(not, expr))
                } else {
                    Ok(Block::Else)
                }
            }
''', '''            Keyword::Else => self.parse_else(),
'''), (PA, '''    /// Parses an if condition.
''', '''    fn parse_else(&mut self) -> Result<Block> {
        if !self.is_next_keyword(Keyword::If)? {
            return Ok(Block::Else);
        }
        self.expect_keyword(Keyword::If)?;
        let (not, expr) = self.parse_if_cond()?;
        Ok(Block::ElseIf(not, expr))
    }

    /// Parses an if condition.
''')]),
 ("par_if_cond_accept", [(PA, '''        if self.is_next_keyword(Keyword::Not)? {
            self.expect_keyword(Keyword::Not)?;
            let expr = self.parse_expr()?;
            Ok((true, expr))
        } else {
            let expr = self.parse_expr()?;
            Ok((false, expr))
        }
''', '''        let not = self.is_next_keyword(Keyword::Not)?;
        if not {
            self.expect_keyword(Keyword::Not)?;
        }
        let expr = self.parse_expr()?;
        Ok((not, expr))
''')]),
 ("par_call_fn", [(PA, '''            let name = self.parse_ident()?;
            let (args, span) = if self.is_next(Token::Colon)? {
                let span = self.expect(Token::Colon)?;
                let args = self.parse_args(span)?;
                let span = expr.span().combine(args.span);
                (Some(args), span)
            } else {
                (None, expr.span().combine(name.span))
            };
            expr = ast::Expr::Call(ast::Call {
                name,
                args,
                receiver: Box::new(expr),
                span,
            });
        }
        Ok(expr)
    }
''', '''            expr = self.parse_call(expr)?;
        }
        Ok(expr)
    }

    fn parse_call(&mut self, receiver: ast::Expr) -> Result<ast::Expr> {
        let start = receiver.span();
        let name = self.parse_ident()?;
        let mut end = name.span;
        let mut args = None;
        if self.is_next(Token::Colon)? {
            let colon = self.expect(Token::Colon)?;
            let parsed = self.parse_args(colon)?;
            end = parsed.span;
            args = Some(parsed);
        }
        Ok(ast::Expr::Call(ast::Call {
            name,
            args,
            receiver: Box::new(receiver),
            span: start.combine(end),
        }))
    }
''')]),
 ("par_var_helper", [(PA, '''                Some((Token::Dot, sp)) => {
                    self.expect(Token::Dot)?;
                    let access = self.parse_access()?;
                    path.push(ast::Member {
                        op: ast::AccessOp::Direct,
                        access,
                        span: sp.combine(access.span()),
                    });
                }
                Some((Token::QuestionDot, sp)) => {
                    self.expect(Token::QuestionDot)?;
                    let access = self.parse_access()?;
                    path.push(ast::Member {
                        op: ast::AccessOp::Optional,
                        access,
                        span: sp.combine(access.span()),
                    });
                }
                _ => break,
            }
        }

        Ok(ast::Var { path })
    }
''', '''                Some((Token::Dot, _)) => {
                    path.push(self.parse_member(Token::Dot, ast::AccessOp::Direct)?);
                }
                Some((Token::QuestionDot, _)) => {
                    path.push(self.parse_member(Token::QuestionDot, ast::AccessOp::Optional)?);
                }
                _ => return Ok(ast::Var { path }),
            }
        }
    }

    fn parse_member(&mut self, tk: Token, op: ast::AccessOp) -> Result<ast::Member> {
        let start = self.expect(tk)?;
        let access = self.parse_access()?;
        let span = start.combine(access.span());
        Ok(ast::Member { op, access, span })
    }
''')]),
 ("par_args_first", [(PA, '''        let mut values = Vec::new();
        loop {
            values.push(self.parse_base_expr()?);
            if !self.is_next(Token::Comma)? {
                break;
            }
            self.expect(Token::Comma)?;
        }
''', '''        let mut values = vec![self.parse_base_expr()?];
        while self.is_next(Token::Comma)? {
            self.expect(Token::Comma)?;
            values.push(self.parse_base_expr()?);
        }
''')]),
 ("par_string_push", [(PA, '''                    '"' => continue,
                    '\\\\' => {
                        let (i, esc) = iter.next().unwrap();
                        let c = match esc {
                            'n' => '\\n',
                            'r' => '\\r',
                            't' => '\\t',
                            '\\\\' => '\\\\',
                            '"' => '"',
                            _ => {
                                let j = iter.next().unwrap().0;
                                return Err(Error::syntax(
                                    "unknown escape character",
                                    self.source(),
                                    i..j,
                                ));
                            }
                        };
                        string.push(c);
                    }
                    c => string.push(c),
''', '''                    '"' => {}
                    '\\\\' => {
                        let (i, esc) = iter.next().unwrap();
                        match esc {
                            'n' => string.push('\\n'),
                            'r' => string.push('\\r'),
                            't' => string.push('\\t'),
                            '\\\\' | '"' => string.push(esc),
                            _ => {
                                let (j, _) = iter.next().unwrap();
                                return Err(Error::syntax(
                                    "unknown escape character",
                                    self.source(),
                                    i..j,
                                ));
                            }
                        }
                    }
                    _ => string.push(c),
''')]),
 ("par_bool_helper", [(PA, '''        let bool = match &self.source()[span] {
            "false" => false,
            "true" => true,
            kw => {
                return Err(self.err_unexpected_keyword(kw, span));
            }
        };
        let value = Value::Bool(bool);
        Ok(ast::Literal { value, span })
''', '''        let kw = &self.source()[span];
        if kw != "true" && kw != "false" {
            return Err(self.err_unexpected_keyword(kw, span));
        }
        Ok(ast::Literal {
            value: Value::Bool(kw == "true"),
            span,
        })
''')]),
 ("par_unclosed_span", [(PA, '''            let (msg, span) = match block {
                State::If { span, .. } => ("unclosed `if` block", span),
                State::For { span, .. } => ("unclosed `for` block", span),
                State::With { span, .. } => ("unclosed `with` block", span),
            };
            return Err(Error::syntax(msg, self.source(), *span));
''', '''            let msg = match block {
                State::If { .. } => "unclosed `if` block",
                State::For { .. } => "unclosed `for` block",
                State::With { .. } => "unclosed `with` block",
            };
            let (State::If { span, .. } | State::For { span, .. } | State::With { span, .. }) =
                block;
            return Err(Error::syntax(msg, self.source(), *span));
''')]),
 ("par_endif_while", [(PA, '''                            loop {
                                match blocks.pop().ok_or_else(err)? {
                                    State::If {
                                        is_else_if,
                                        not,
                                        cond,
                                        has_else,
                                        ..
                                    } => {
                                        let else_branch = has_else.then(|| scopes.pop().unwrap());
                                        let then_branch = scopes.pop().unwrap();
                                        let stmt = ast::Stmt::IfElse(ast::IfElse {
                                            not,
                                            cond,
                                            then_branch,
                                            else_branch,
                                        });
                                        if !is_else_if {
                                            break stmt;
                                        }
                                        scopes.last_mut().unwrap().stmts.push(stmt);
                                    }
                                    _ => return Err(err()),
                                };
                            }
''', '''                            loop {
                                let State::If {
                                    is_else_if,
                                    not,
                                    cond,
                                    has_else,
                                    ..
                                } = blocks.pop().ok_or_else(err)?
                                else {
                                    return Err(err());
                                };
                                let else_branch = if has_else {
                                    Some(scopes.pop().unwrap())
                                } else {
                                    None
                                };
                                let stmt = ast::Stmt::IfElse(ast::IfElse {
                                    not,
                                    cond,
                                    then_branch: scopes.pop().unwrap(),
                                    else_branch,
                                });
                                if is_else_if {
                                    scopes.last_mut().unwrap().stmts.push(stmt);
                                } else {
                                    break stmt;
                                }
                            }
''')]),
 ("comp_if_jump", [(CM, '''                match else_branch {
                    Some(else_branch) => {
                        // else branch
                        let j2 = self.push(Instr::Jump(FIXME));
                        self.update_jump(j);
                        self.compile_scope(else_branch);
                        self.update_jump(j2)
                    }
                    None => {
                        self.update_jump(j);
                    }
                }
''', '''                let mut end = j;
                if let Some(else_branch) = else_branch {
                    end = self.push(Instr::Jump(FIXME));
                    self.update_jump(j);
                    self.compile_scope(else_branch);
                }
                self.update_jump(end);
''')]),
 ("comp_emit_rewrite", [(CM, '''        let emit = match self.instrs.last() {
            Some(Instr::Apply(_, _, None)) => {
                let instr = self.instrs.pop().unwrap();
                match instr {
                    Instr::Apply(ident, _, _) => Instr::EmitWith(ident, span),
                    _ => unreachable!(),
                }
            }
            _ => Instr::Emit(span),
        };
        self.push(emit);
''', '''        match self.instrs.pop() {
            Some(Instr::Apply(ident, _, None)) => {
                self.push(Instr::EmitWith(ident, span));
            }
            last => {
                self.instrs.extend(last);
                self.push(Instr::Emit(span));
            }
        }
''')]),
 ("comp_expr_iter", [(CM, '''            ast::Expr::Base(base_expr) => {
                self.compile_base_expr(base_expr);
            }
''', '''            ast::Expr::Base(ast::BaseExpr::Var(var)) => {
                self.push(Instr::ExprStart(var));
            }

            ast::Expr::Base(ast::BaseExpr::Literal(literal)) => {
                self.push(Instr::ExprStartLit(literal.value));
            }
'''), (CM, '''    fn compile_base_expr(&mut self, base_expr: ast::BaseExpr) {
        match base_expr {
            ast::BaseExpr::Var(var) => {
                self.push(Instr::ExprStart(var));
            }
            ast::BaseExpr::Literal(ast::Literal { value, .. }) => {
                self.push(Instr::ExprStartLit(value));
            }
        }
    }

''', '')]),
 ("err_lncol_scan", [(ER, '''    let mut n = 0;
    for (i, line) in lines.iter().enumerate() {
        let len = line.len() + 1;
        if n + len > offset {
            return (i, display_width(&line[..offset - n]));
        }
        n += len;
    }
''', '''    let mut rest = offset;
    for (i, line) in lines.iter().enumerate() {
        if rest <= line.len() {
            return (i, display_width(&line[..rest]));
        }
        rest -= line.len() + 1;
    }
''')]),
 ("err_with_reason", [(ER, '''    pub(crate) fn syntax(reason: impl Into<String>, source: &str, span: impl Into<Span>) -> Self {
        Self {
            kind: ErrorKind::Syntax,
            name: None,
            reason: Some(reason.into()),
            pretty: Some(Pretty::build(source, span.into())),
        }
    }
''', '''    pub(crate) fn syntax(reason: impl Into<String>, source: &str, span: impl Into<Span>) -> Self {
        Self::located(ErrorKind::Syntax, Some(reason.into()), source, span.into())
    }

    fn located(kind: ErrorKind, reason: Option<String>, source: &str, span: Span) -> Self {
        Self {
            pretty: Some(Pretty::build(source, span)),
            kind,
            name: None,
            reason,
        }
    }
'''), (ER, '''        Self {
            kind: ErrorKind::Render,
            name: None,
            reason: Some(reason.into()),
            pretty: Some(Pretty::build(source, span.into())),
        }
''', '''        Self::located(ErrorKind::Render, Some(reason.into()), source, span.into())
'''), (ER, '''        Self {
            kind: ErrorKind::Format,
            name: None,
            reason: err.message(),
            pretty: Some(Pretty::build(source, span.into())),
        }
''', '''        Self::located(ErrorKind::Format, err.message(), source, span.into())
''')]),
 ("err_display_reason", [(ER, '''        match (&self.reason, &self.pretty) {
            (Some(r), Some(p)) if f.alternate() => {
                write!(f, "{msg}")?;
                p.fmt_with_reason(f, self.name.as_deref(), r)
            }
            (Some(reason), _) => write!(f, "{msg}: {reason}"),
            _ => write!(f, "{msg}"),
        }
''', '''        write!(f, "{msg}")?;
        let Some(reason) = &self.reason else {
            return Ok(());
        };
        match &self.pretty {
            Some(pretty) if f.alternate() => {
                pretty.fmt_with_reason(f, self.name.as_deref(), reason)
            }
            _ => write!(f, ": {reason}"),
        }
''')]),
 ("lib_insert_fn", [(LI, '''        self.functions
            .insert(name.into(), EngineBoxFn::Formatter(Box::new(f)))
            .map(|f| f.discriminant())
''', '''        self.insert_function(name.into(), EngineBoxFn::Formatter(Box::new(f)))
'''), (LI, '''        self.functions
            .insert(name.into(), EngineBoxFn::Filter(filters::new(f)))
            .map(|f| f.discriminant())
    }
''', '''        self.insert_function(name.into(), EngineBoxFn::Filter(filters::new(f)))
    }

    fn insert_function(&mut self, name: Cow<'engine, str>, f: EngineBoxFn) -> Option<EngineFn> {
        let prev = self.functions.insert(name, f)?;
        Some(prev.discriminant())
    }
''')]),
 ("lib_addt_map", [(LI, '''        match compile::template(self, source.into()) {
            Ok(template) => {
                self.templates.insert(name.into(), template);
                Ok(())
            }
            Err(err) => Err(err.with_template_name(name.into().into())),
        }
''', '''        let source = source.into();
        let name = name.into();
        let template = match compile::template(self, source) {
            Ok(template) => template,
            Err(err) => return Err(err.with_template_name(name.into_owned())),
        };
        self.templates.insert(name, template);
        Ok(())
''')]),
 ("rm_tostring_shared", [(RM, '''            Globals::Owned(result) => {
                let value = result?;
                let stack = Stack::new(&value);
                let x = to_string(inner, stack);
                drop(value);
                x
            }
            Globals::Borrowed(value) => {
                let stack = Stack::new(value);
                to_string(inner, stack)
            }
            Globals::Fn(value_fn) => {
                let stack = Stack::with_value_fn(&value_fn);
                to_string(inner, stack)
            }
''', '''            Globals::Fn(value_fn) => to_string(inner, Stack::with_value_fn(&value_fn)),
            Globals::Borrowed(value) => to_string(inner, Stack::new(value)),
            Globals::Owned(Err(err)) => Err(err),
            Globals::Owned(Ok(value)) => {
                let stack = Stack::new(&value);
                #[allow(clippy::let_and_return)]
                let x = to_string(inner, stack);
                x
            }
''')]),
 ("rm_towriter_ifok", [(RM, '''    RendererImpl { inner, stack }
        .render(&mut f)
        .map_err(|err| w.take_err().map(Error::from).unwrap_or(err))
''', '''    let result = RendererImpl { inner, stack }.render(&mut f);
    match result {
        Ok(()) => Ok(()),
        Err(err) => match w.take_err() {
            Some(io) => Err(Error::from(io)),
            None => Err(err),
        },
    }
''')]),
]
