"""Behaviour-preserving edits of the lexer, parser and search."""
LX, PA, SM = "src/compile/lex.rs", "src/compile/parse.rs", "src/compile/search/mod.rs"
AB, AM, AS = "src/compile/search/ahocorasick/build.rs", "src/compile/search/ahocorasick/mod.rs", "src/compile/search/ahocorasick/state.rs"
TS, SP = "src/types/syntax.rs", "src/types/span.rs"
SY = "src/syntax.rs"

E = [
 ("lex_next_whilelet", [(LX, '''        loop {
            match self.lex()? {
                Some((tk, sp)) if !tk.is_whitespace() => return Ok(Some((tk, sp))),
                None => return Ok(None),
                _ => continue,
            }
        }''', '''        while let Some((tk, sp)) = self.lex()? {
            if !tk.is_whitespace() {
                return Ok(Some((tk, sp)));
            }
        }
        Ok(None)''')]),
 ("lex_lex_eof", [(LX, '''        if let Some(next) = self.next.take() {
            return Ok(Some(next));
        }

        let i = self.cursor;

        if self.source[i..].is_empty() {
            return Ok(None);
        }
''', '''        if self.next.is_some() {
            return Ok(self.next.take());
        }

        let i = self.cursor;

        if i >= self.source.len() {
            return Ok(None);
        }
''')]),
 ("lex_trim_fn", [(LX, '''        let mut trim_raw_token = |mut i, mut j, right_trim| {
            if right_trim {
                j = i + self.source[i..j].trim_end().len();
            }
            if self.left_trim {
                self.left_trim = false;
                let s = &self.source[i..j];
                i += s.len() - s.trim_start().len();
            }
            Ok(Some((Token::Raw, Span::from(i..j))))
        };

''', ''), (LX, '''                    self.next = lex(j, k)?;
                    trim_raw_token(i, j, trim)
                }''', '''                    self.next = lex(j, k)?;
                    Ok(Some(self.trim_raw_token(i, j, trim)))
                }'''), (LX, '''                self.cursor = j;
                trim_raw_token(i, j, false)
            }
        }
    }
''', '''                self.cursor = j;
                Ok(Some(self.trim_raw_token(i, j, false)))
            }
        }
    }

    fn trim_raw_token(&mut self, i: usize, j: usize, right_trim: bool) -> (Token, Span) {
        let (mut start, mut end) = (i, j);
        if right_trim {
            end = start + self.source[start..end].trim_end().len();
        }
        if std::mem::take(&mut self.left_trim) {
            let s = &self.source[start..end];
            start += s.len() - s.trim_start().len();
        }
        (Token::Raw, Span { m: start, n: end })
    }
''')]),
 ("lex_template_enter", [(LX, '''                // Updates the current lexer cursor and state and
                // returns the token and span.
                let mut lex = |m, n| {
                    let begin = Span::from(m..n);
                    let end = tk.pair();
                    self.cursor = n;
                    self.state = if tk.is_begin_comment() {
                        State::Comment { begin, end }
                    } else {
                        State::Block { begin, end }
                    };
                    Ok(Some((tk, begin)))
                };

                if i == j {
                    // The current cursor is exactly at the token.
                    lex(j, k)
                } else {
                    // We must first emit the raw token, so we store the
                    // begin tag token in the `next` buffer.
                    self.next = lex(j, k)?;
                    trim_raw_token(i, j, trim)
                }''', '''                let begin = Span::from(j..k);
                let end = tk.pair();
                self.cursor = k;
                self.state = match tk {
                    Token::BeginComment => State::Comment { begin, end },
                    _ => State::Block { begin, end },
                };
                if i != j {
                    self.next = Some((tk, begin));
                    return trim_raw_token(i, j, trim);
                }
                Ok(Some((tk, begin)))''')]),
 ("lex_block_split", [(LX, '''                // We iterate over chars because that is nicer than operating on
                // raw bytes. The map call here fixes the index to be relative
                // to the actual template source.
                let mut iter = self.source[i..].char_indices().map(|(d, c)| (i + d, c));

                // We can `.unwrap()` since we've already checked that there is
                // more text remaining.
                let (i, c) = iter.next().unwrap();

                match c {
                    // Single character to token mappings.
                    '.' => (Token::Dot, i + 1),
                    '|' => (Token::Pipe, i + 1),
                    ',' => (Token::Comma, i + 1),
                    ':' => (Token::Colon, i + 1),
                    '+' => (Token::Plus, i + 1),
                    '-' => (Token::Minus, i + 1),

                    // Multi-character tokens with a distinct start character.
                    '?' => self.lex_question_dot(iter, i)?,
                    '"' => self.lex_string(iter, i)?,
                    c if c.is_ascii_digit() => match block_state {
                        BlockState::Path => self.lex_index(iter),
                        BlockState::Unknown => self.lex_number(iter),
                    },
                    c if is_whitespace(c) => self.lex_whitespace(iter),
                    c if is_ident_start(c) => self.lex_ident_or_keyword(iter, i),

                    // Any other character...
                    _ => {
                        return Err(self.err_unexpected_character(i..(i + c.len_utf8())));
                    }
                }
            }
        };
''', '''                self.lex_in_tag(block_state, i)?
            }
        };
'''), (LX, '''    fn lex_comment(&mut self,''', '''    fn lex_in_tag(&mut self, block_state: BlockState, i: usize) -> Result<(Token, usize)> {
        let mut iter = self.source[i..].char_indices().map(|(d, c)| (i + d, c));
        let (i, c) = iter.next().unwrap();
        let found = match c {
            '.' => (Token::Dot, i + 1),
            '|' => (Token::Pipe, i + 1),
            ',' => (Token::Comma, i + 1),
            ':' => (Token::Colon, i + 1),
            '+' => (Token::Plus, i + 1),
            '-' => (Token::Minus, i + 1),
            '?' => self.lex_question_dot(iter, i)?,
            '"' => self.lex_string(iter, i)?,
            c if is_whitespace(c) => self.lex_whitespace(iter),
            '0'..='9' => match block_state {
                BlockState::Path => self.lex_index(iter),
                BlockState::Unknown => self.lex_number(iter),
            },
            c if is_ident_start(c) => self.lex_ident_or_keyword(iter, i),
            _ => return Err(self.err_unexpected_character(i..(i + c.len_utf8()))),
        };
        Ok(found)
    }

    fn lex_comment(&mut self,''')]),
 ("lex_block_state_if", [(LX, '''        match (block_state, tk) {
            (BlockState::Unknown, Token::Ident) => {
                self.state = State::BlockPath { begin, end };
            }
            (BlockState::Path, Token::Pipe | Token::Comma | Token::Colon | Token::Keyword) => {
                self.state = State::Block { begin, end };
            }
            _ => {}
        }

        // Finally, we need to update the cursor.
        self.cursor = j;
''', '''        self.cursor = j;
        match block_state {
            BlockState::Unknown => {
                if tk == Token::Ident {
                    self.state = State::BlockPath { begin, end };
                }
            }
            BlockState::Path => {
                if matches!(tk, Token::Keyword | Token::Pipe | Token::Comma | Token::Colon) {
                    self.state = State::Block { begin, end };
                }
            }
        }
''')]),
 ("lex_comment_flat", [(LX, '''                let mut lex = |m, n| {
                    self.cursor = n;
                    self.state = State::Template;
                    self.left_trim = trim;
                    let end = Span::from(m..n);
                    Ok(Some((tk, end)))
                };

                if i == j {
                    // The current cursor is exactly at the token.
                    lex(j, k)
                } else {
                    // We must first emit the raw token, so we store the end tag
                    // token in the `next` buffer.
                    self.next = lex(j, k)?;
                    Ok(Some((Token::Raw, Span::from(i..j))))
                }''', '''                self.cursor = k;
                self.state = State::Template;
                self.left_trim = trim;
                let item = Some((tk, Span::from(j..k)));
                if i < j {
                    self.next = item;
                    return Ok(Some((Token::Raw, Span::from(i..j))));
                }
                Ok(item)''')]),
 ("lex_qdot_iflet", [(LX, '''        match iter.next() {
            Some((_, '.')) => Ok((Token::QuestionDot, i + 2)),
            Some((j, c)) => Err(self.err_unexpected_character(i..j + c.len_utf8())),
            None => Err(self.err_unexpected_character(i..self.source.len())),
        }''', '''        let n = match iter.next() {
            Some((_, '.')) => return Ok((Token::QuestionDot, i + 2)),
            Some((j, c)) => j + c.len_utf8(),
            None => self.source.len(),
        };
        Err(self.err_unexpected_character(i..n))''')]),
 ("lex_string_for", [(LX, '''        let mut escaped = false;
        loop {
            match iter.next() {
                None => {
                    return Err(self.err_undelimited_string(i..self.source.len()));
                }
                Some((j, '\\r' | '\\n')) => {
                    return Err(self.err_undelimited_string(i..j));
                }
                Some((j, '"')) if !escaped => {
                    return Ok((Token::String, j + 1));
                }
                Some((_, c)) => {
                    escaped = c == '\\\\' && !escaped;
                }
            }
        }''', '''        let mut escaped = false;
        while let Some((j, c)) = iter.next() {
            match c {
                '\\r' | '\\n' => return Err(self.err_undelimited_string(i..j)),
                '"' if !escaped => return Ok((Token::String, j + 1)),
                '\\\\' => escaped = !escaped,
                _ => escaped = false,
            }
        }
        Err(self.err_undelimited_string(i..self.source.len()))''')]),
 ("lex_while_while", [(LX, '''        loop {
            match iter.clone().next() {
                Some((_, c)) if pred(c) => {
                    iter.next().unwrap();
                }
                Some((j, _)) => return j,
                None => return self.source.len(),
            }
        }''', '''        while let Some((j, c)) = iter.next() {
            if !pred(c) {
                return j;
            }
        }
        self.source.len()''')]),
 ("lex_while_find", [(LX, '''        loop {
            match iter.clone().next() {
                Some((_, c)) if pred(c) => {
                    iter.next().unwrap();
                }
                Some((j, _)) => return j,
                None => return self.source.len(),
            }
        }''', '''        iter.find(|&(_, c)| !pred(c))
            .map(|(j, _)| j)
            .unwrap_or_else(|| self.source.len())''')]),
 ("lex_kw_if", [(LX, '''        let tk = match Keyword::all().contains(&&self.source[i..j]) {
            true => Token::Keyword,
            false => Token::Ident,
        };
        (tk, j)''', '''        let word = &self.source[i..j];
        if Keyword::all().contains(&word) {
            (Token::Keyword, j)
        } else {
            (Token::Ident, j)
        }''')]),
 ("lex_kw_any", [(LX, '''        let tk = match Keyword::all().contains(&&self.source[i..j]) {
            true => Token::Keyword,
            false => Token::Ident,
        };
        (tk, j)''', '''        let word = &self.source[i..j];
        let is_keyword = Keyword::all().iter().any(|kw| *kw == word);
        let tk = if is_keyword { Token::Keyword } else { Token::Ident };
        (tk, j)''')]),
 ("lex_is_begin", [(LX, '''        matches!(
            self,
            Self::BeginExpr | Self::BeginBlock | Self::BeginComment
        )''', '''        match self {
            Self::BeginExpr => true,
            Self::BeginBlock => true,
            Self::BeginComment => true,
            _ => false,
        }''')]),
 ("lex_struct_reorder", [(LX, '''    /// A cursor over the template source.
    cursor: usize,

    /// The current state of the lexer.
    state: State,

    /// Whether to left trim the next raw token.
    left_trim: bool,
''', '''    /// Whether to left trim the next raw token.
    left_trim: bool,

    /// A cursor over the template source.
    cursor: usize,

    /// The current state of the lexer.
    state: State,
''')]),
 ("lex_field_rename", [(LX, "left_trim", "@ALLtrim_next_raw")]),
 ("lex_block_state_rename", [(LX, "BlockState", "@ALLTagContext")]),
 ("lex_fn_rename", [(LX, "lex_question_dot", "@ALLlex_optional_access")]),
 ("lex_number_inline", [(LX, '''        let j = loop {
            match iter.next() {
                // A sign can be part of the number but not if it is the start
                // of a tag, e.g. `-}}`.
                Some((j, '-' | '+'))
                    if self.engine.searcher.starts_with(self.source, j).is_some() =>
                {
                    break j;
                }
                Some((_, c)) if is_number(c) => {}
                Some((j, _)) => break j,
                None => break self.source.len(),
            }
        };
        (Token::Number, j)''', '''        let mut end = self.source.len();
        for (j, c) in iter {
            let sign = c == '-' || c == '+';
            if sign && self.engine.searcher.starts_with(self.source, j).is_some() || !is_number(c) {
                end = j;
                break;
            }
        }
        (Token::Number, end)'''), (LX, "fn lex_number<I>(&mut self, mut iter: I)", "fn lex_number<I>(&mut self, iter: I)")]),
 ("lex_number_fnguard", [(LX, '''                Some((j, '-' | '+'))
                    if self.engine.searcher.starts_with(self.source, j).is_some() =>
                {
                    break j;
                }
                Some((_, c)) if is_number(c) => {}
                Some((j, _)) => break j,
                None => break self.source.len(),''', '''                None => break self.source.len(),
                Some((j, c)) => {
                    if !is_number(c) {
                        break j;
                    }
                    if matches!(c, '-' | '+') {
                        if let Some(_) = self.engine.searcher.starts_with(self.source, j) {
                            break j;
                        }
                    }
                }''')]),
 ("par_else_take", [(PA, '''                            let err =
                                || Error::syntax("unexpected `else` block", self.source(), span);
                            match blocks.last_mut().ok_or_else(err)? {
                                State::If {
                                    has_else: has_else @ false,
                                    ..
                                } => {
                                    *has_else = true;
                                }
                                _ => return Err(err()),
                            }
                            scopes.push(ast::Scope::new());
                            continue;''', '''                            match blocks.last_mut() {
                                Some(State::If { has_else, .. }) if !*has_else => {
                                    *has_else = true;
                                }
                                _ => {
                                    return Err(Error::syntax(
                                        "unexpected `else` block",
                                        self.source(),
                                        span,
                                    ))
                                }
                            }
                            scopes.push(ast::Scope::new());
                            continue;''')]),
 ("par_endfor_iflet", [(PA, '''                            let for_loop = match blocks.pop().ok_or_else(err)? {
                                State::For { vars, iterable, .. } => {
                                    let body = scopes.pop().unwrap();
                                    ast::ForLoop {
                                        vars,
                                        iterable,
                                        body,
                                    }
                                }
                                _ => return Err(err()),
                            };
                            ast::Stmt::ForLoop(for_loop)''', '''                            if let State::For { vars, iterable, .. } =
                                blocks.pop().ok_or_else(err)?
                            {
                                let body = scopes.pop().unwrap();
                                ast::Stmt::ForLoop(ast::ForLoop {
                                    vars,
                                    iterable,
                                    body,
                                })
                            } else {
                                return Err(err());
                            }''')]),
 ("par_endif_then", [(PA, '''                                        let else_branch = has_else.then(|| scopes.pop().unwrap());
                                        let then_branch''', '''                                        let else_branch = if has_else { scopes.pop() } else { None };
                                        let then_branch''')]),
 ("par_unclosed_helper", [(PA, '''        if let Some(block) = blocks.first() {
            let (msg, span) = match block {
                State::If { span, .. } => ("unclosed `if` block", span),
                State::For { span, .. } => ("unclosed `for` block", span),
                State::With { span, .. } => ("unclosed `with` block", span),
            };
            return Err(Error::syntax(msg, self.source(), *span));
        }
''', '''        if !blocks.is_empty() {
            let (msg, span) = blocks[0].unclosed();
            return Err(Error::syntax(msg, self.source(), span));
        }
'''), (PA, '''/// A parsed block definition.''', '''impl State {
    fn unclosed(&self) -> (&'static str, Span) {
        match *self {
            State::If { span, .. } => ("unclosed `if` block", span),
            State::For { span, .. } => ("unclosed `for` block", span),
            State::With { span, .. } => ("unclosed `with` block", span),
        }
    }
}

/// A parsed block definition.''')]),
 ("par_inline_helper", [(PA, '''                    let expr = self.parse_expr()?;
                    let end = self.expect(Token::EndExpr)?;
                    let span = begin.combine(end);
                    ast::Stmt::InlineExpr(ast::InlineExpr { expr, span })
                }''', '''                    ast::Stmt::InlineExpr(self.parse_inline_expr(begin)?)
                }'''), (PA, '''    /// Parses an if condition.
''', '''    fn parse_inline_expr(&mut self, begin: Span) -> Result<ast::InlineExpr> {
        let expr = self.parse_expr()?;
        let end = self.expect(Token::EndExpr)?;
        Ok(ast::InlineExpr { span: begin.combine(end), expr })
    }

    /// Parses an if condition.
''')]),
 ("par_ifcond_flag", [(PA, '''        if self.is_next_keyword(Keyword::Not)? {
            self.expect_keyword(Keyword::Not)?;
            let expr = self.parse_expr()?;
            Ok((true, expr))
        } else {
            let expr = self.parse_expr()?;
            Ok((false, expr))
        }''', '''        let not = self.is_next_keyword(Keyword::Not)?;
        if not {
            self.expect_keyword(Keyword::Not)?;
        }
        Ok((not, self.parse_expr()?))''')]),
 ("par_expr_loop", [(PA, '''        while self.is_next(Token::Pipe)? {
            self.expect(Token::Pipe)?;
            let name = self.parse_ident()?;
            let (args, span) = if self.is_next(Token::Colon)? {
                let span = self.expect(Token::Colon)?;
                let args = self.parse_args(span)?;
                let span = expr.span().combine(args.span);
                (Some(args), span)
            } else {
                (None, expr.span().combine(name.span))
            };
            expr = ast::Expr::Call(ast::Call {
                name,
                args,
                receiver: Box::new(expr),
                span,
            });
        }
        Ok(expr)''', '''        loop {
            if !self.is_next(Token::Pipe)? {
                return Ok(expr);
            }
            self.expect(Token::Pipe)?;
            expr = self.parse_call(expr)?;
        }'''), (PA, '''    /// Parses a variable or literal.
''', '''    fn parse_call(&mut self, receiver: ast::Expr) -> Result<ast::Expr> {
        let name = self.parse_ident()?;
        let args = match self.is_next(Token::Colon)? {
            true => {
                let colon = self.expect(Token::Colon)?;
                Some(self.parse_args(colon)?)
            }
            false => None,
        };
        let last = args.as_ref().map(|a| a.span).unwrap_or(name.span);
        let span = receiver.span().combine(last);
        Ok(ast::Expr::Call(ast::Call {
            span,
            name,
            args,
            receiver: Box::new(receiver),
        }))
    }

    /// Parses a variable or literal.
''')]),
 ("par_base_sign", [(PA, '''            (Token::Minus, sign) => {
                let span = self.expect(Token::Number)?;
                let lit =
                    self.parse_literal_number(&self.source()[span], sign.combine(span), Sign::Neg)?;
                ast::BaseExpr::Literal(lit)
            }

            (Token::Plus, sign) => {
                let span = self.expect(Token::Number)?;
                let lit =
                    self.parse_literal_number(&self.source()[span], sign.combine(span), Sign::Pos)?;
                ast::BaseExpr::Literal(lit)
            }
''', '''            (tk @ (Token::Minus | Token::Plus), begin) => {
                let sign = if tk == Token::Minus { Sign::Neg } else { Sign::Pos };
                let span = self.expect(Token::Number)?;
                let raw = &self.source()[span];
                ast::BaseExpr::Literal(self.parse_literal_number(raw, begin.combine(span), sign)?)
            }
''')]),
 ("par_var_op", [(PA, '''        loop {
            match self.peek()? {
                Some((Token::Dot, sp)) => {
                    self.expect(Token::Dot)?;
                    let access = self.parse_access()?;
                    path.push(ast::Member {
                        op: ast::AccessOp::Direct,
                        access,
                        span: sp.combine(access.span()),
                    });
                }
                Some((Token::QuestionDot, sp)) => {
                    self.expect(Token::QuestionDot)?;
                    let access = self.parse_access()?;
                    path.push(ast::Member {
                        op: ast::AccessOp::Optional,
                        access,
                        span: sp.combine(access.span()),
                    });
                }
                _ => break,
            }
        }
''', '''        loop {
            let (op, tk, sp) = match self.peek()? {
                Some((tk @ Token::Dot, sp)) => (ast::AccessOp::Direct, tk, sp),
                Some((tk @ Token::QuestionDot, sp)) => (ast::AccessOp::Optional, tk, sp),
                _ => break,
            };
            self.expect(tk)?;
            let access = self.parse_access()?;
            let span = sp.combine(access.span());
            path.push(ast::Member { op, access, span });
        }
''')]),
 ("par_access_maperr", [(PA, '''                let value = match self.source()[span].parse() {
                    Ok(value) => value,
                    Err(_) => {
                        return Err(Error::syntax(
                            format!(
                                "base 10 literal out of range for unsigned {}-bit integer",
                                usize::BITS
                            ),
                            self.source(),
                            span,
                        ));
                    }
                };
                Ok(''', '''                let value = self.source()[span].parse::<usize>().map_err(|_| {
                    Error::syntax(
                        format!(
                            "base 10 literal out of range for unsigned {}-bit integer",
                            usize::BITS
                        ),
                        self.source(),
                        span,
                    )
                })?;
                Ok(''')]),
 ("par_args_while", [(PA, '''        let mut values = Vec::new();
        loop {
            values.push(self.parse_base_expr()?);
            if !self.is_next(Token::Comma)? {
                break;
            }
            self.expect(Token::Comma)?;
        }
        let span''', '''        let mut values = vec![self.parse_base_expr()?];
        while self.is_next(Token::Comma)? {
            self.expect(Token::Comma)?;
            values.push(self.parse_base_expr()?);
        }
        let span''')]),
 ("par_loopvars_else", [(PA, '''        if !self.is_next(Token::Comma)? {
            return Ok(ast::LoopVars::Item(key));
        }
        self.expect(Token::Comma)?;
        let value = self.parse_ident()?;
        let span = key.span.combine(value.span);
        Ok(ast::LoopVars::KeyValue(ast::KeyValue { key, value, span }))''', '''        if self.is_next(Token::Comma)? {
            self.expect(Token::Comma)?;
            let value = self.parse_ident()?;
            let span = key.span.combine(value.span);
            Ok(ast::LoopVars::KeyValue(ast::KeyValue { key, value, span }))
        } else {
            Ok(ast::LoopVars::Item(key))
        }''')]),
 ("par_number_orelse", [(PA, '''        match self.parse_literal_integer(raw, span, sign) {
            Ok(lit) => Ok(lit),
            Err(err) => match self.parse_literal_float(raw, span, sign) {
                Ok(lit) => Ok(lit),
                Err(err2) => {
                    if raw.contains(['.', '-', '+']) {
                        Err(err2)
                    } else {
                        Err(err)
                    }
                }
            },
        }''', '''        self.parse_literal_integer(raw, span, sign).or_else(|int_err| {
            self.parse_literal_float(raw, span, sign).map_err(|float_err| {
                match raw.contains(['.', '-', '+']) {
                    true => float_err,
                    false => int_err,
                }
            })
        })''')]),
 ("par_number_ifok", [(PA, '''        match self.parse_literal_integer(raw, span, sign) {
            Ok(lit) => Ok(lit),
            Err(err) => match self.parse_literal_float(raw, span, sign) {
                Ok(lit) => Ok(lit),
                Err(err2) => {
                    if raw.contains(['.', '-', '+']) {
                        Err(err2)
                    } else {
                        Err(err)
                    }
                }
            },
        }''', '''        let err = match self.parse_literal_integer(raw, span, sign) {
            Ok(lit) => return Ok(lit),
            Err(err) => err,
        };
        let result = self.parse_literal_float(raw, span, sign);
        if result.is_err() && !raw.contains(['.', '-', '+']) {
            return Err(err);
        }
        result''')]),
 ("par_integer_loop", [(PA, '''        let int = digits[i..]
            .iter()
            .enumerate()
            .filter(|(_, &d)| d != b'_')
            .try_fold(0i64, |acc, (j, &d)| {
                let x = (d as char).to_digit(radix).ok_or_else(|| {
                    let m = span.n - raw.len() + i + j;
                    Error::syntax(
                        format!("invalid digit for base {radix} literal"),
                        self.source(),
                        m..m + 1,
                    )
                })?;
                let err = || {
                    Error::syntax(
                        format!("base {radix} literal out of range for 64-bit integer"),
                        self.source(),
                        span,
                    )
                };
                let value = acc.checked_mul(radix.into()).ok_or_else(err)?;
                match sign {
                    Sign::Pos => value.checked_add(x.into()),
                    Sign::Neg => value.checked_sub(x.into()),
                }
                .ok_or_else(err)
            })?;
''', '''        let overflow = || {
            Error::syntax(
                format!("base {radix} literal out of range for 64-bit integer"),
                self.source(),
                span,
            )
        };
        let mut int = 0i64;
        for (j, &d) in digits[i..].iter().enumerate() {
            if d == b'_' {
                continue;
            }
            let x = match (d as char).to_digit(radix) {
                Some(x) => x,
                None => {
                    let m = span.n - raw.len() + i + j;
                    return Err(Error::syntax(
                        format!("invalid digit for base {radix} literal"),
                        self.source(),
                        m..m + 1,
                    ));
                }
            };
            int = int.checked_mul(radix.into()).ok_or_else(overflow)?;
            int = match sign {
                Sign::Pos => int.checked_add(x.into()),
                Sign::Neg => int.checked_sub(x.into()),
            }
            .ok_or_else(overflow)?;
        }
''')]),
 ("par_integer_radix", [(PA, '''        let (i, radix) = match digits {
            [b'0', b'b', ..] => (2, 2),
            [b'0', b'o', ..] => (2, 8),
            [b'0', b'x', ..] => (2, 16),
            _ => (0, 10),
        };''', '''        let (i, radix) = if raw.starts_with("0b") {
            (2, 2)
        } else if raw.starts_with("0o") {
            (2, 8)
        } else if raw.starts_with("0x") {
            (2, 16)
        } else {
            (0, 10)
        };''')]),
 ("par_float_match", [(PA, '''        let float: f64 = raw
            .parse()
            .map_err(|_| Error::syntax("invalid float literal", self.source(), span))?;
        let value = match sign {
            Sign::Neg => Value::Float(-float),
            Sign::Pos => Value::Float(float),
        };
''', '''        let mut float = match raw.parse::<f64>() {
            Ok(f) => f,
            Err(_) => return Err(Error::syntax("invalid float literal", self.source(), span)),
        };
        if let Sign::Neg = sign {
            float = -float;
        }
        let value = Value::Float(float);
''')]),
 ("par_string_early", [(PA, '''        let string = if raw.contains('\\\\') {
            let mut iter''', '''        if !raw.contains('\\\\') {
            return Ok(raw[1..raw.len() - 1].to_string());
        }
        let string = {
            let mut iter'''), (PA, '''            string
        } else {
            raw[1..raw.len() - 1].to_owned()
        };
        Ok(string)''', '''            string
        };
        Ok(string)''')]),
 ("par_string_helper", [(PA, '''                        let c = match esc {
                            'n' => '\\n',
                            'r' => '\\r',
                            't' => '\\t',
                            '\\\\' => '\\\\',
                            '"' => '"',
                            _ => {
                                let j = iter.next().unwrap().0;
                                return Err(Error::syntax(
                                    "unknown escape character",
                                    self.source(),
                                    i..j,
                                ));
                            }
                        };
                        string.push(c);''', '''                        match unescape(esc) {
                            Some(c) => string.push(c),
                            None => {
                                let j = iter.next().unwrap().0;
                                return Err(Error::syntax(
                                    "unknown escape character",
                                    self.source(),
                                    i..j,
                                ));
                            }
                        }'''), (PA, '''impl Keyword {
''', '''fn unescape(c: char) -> Option<char> {
    Some(match c {
        'n' => '\\n',
        'r' => '\\r',
        't' => '\\t',
        '\\\\' | '"' => c,
        _ => return None,
    })
}

impl Keyword {
''')]),
 ("par_isnextkw_match", [(PA, '''        Ok(self
            .peek()?
            .map(|(tk, sp)| tk == Token::Keyword && Keyword::from_str(&self.source()[sp]) == exp)
            .unwrap_or(false))''', '''        let next = self.peek()?;
        Ok(match next {
            Some((Token::Keyword, sp)) => Keyword::from_str(&self.source()[sp]) == exp,
            _ => false,
        })''')]),
 ("par_isnext_matches", [(PA, '''        Ok(self.peek()?.map(|(tk, _)| tk == token).unwrap_or(false))''', '''        Ok(matches!(self.peek()?, Some((tk, _)) if tk == token))''')]),
 ("par_peek_if", [(PA, '''        if let o @ None = &mut self.peeked {
            *o = Some(self.tokens.next()?);
        }
        Ok(self.peeked.unwrap())''', '''        match self.peeked {
            Some(next) => Ok(next),
            None => {
                let next = self.tokens.next()?;
                self.peeked = Some(next);
                Ok(next)
            }
        }''')]),
 ("par_next_iflet", [(PA, '''        match self.peeked.take() {
            Some(v) => Ok(v),
            None => self.tokens.next(),
        }''', '''        if let Some(v) = self.peeked.take() {
            return Ok(v);
        }
        self.tokens.next()''')]),
 ("par_expect_flat", [(PA, '''        match self.next()? {
            Some((tk, span)) if tk == exp => Ok(span),
            Some((tk, span)) => Err(self.err_unexpected_token(exp.human(), tk, span)),
            None => Err(self.err_unexpected_eof(exp.human())),
        }''', '''        let (tk, span) = match self.next()? {
            Some(next) => next,
            None => return Err(self.err_unexpected_eof(exp.human())),
        };
        if tk != exp {
            return Err(self.err_unexpected_token(exp.human(), tk, span));
        }
        Ok(span)''')]),
 ("par_parse_okor", [(PA, '''        match self.next()? {
            Some((tk, sp)) => Ok((tk, sp)),
            None => Err(self.err_unexpected_eof("token")),
        }''', '''        self.next()?.ok_or_else(|| self.err_unexpected_eof("token"))''')]),
 ("par_state_rename", [(PA, "is_else_if", "@ALLchained")]),
 ("par_fn_rename", [(PA, "parse_if_cond", "@ALLparse_condition")]),
 ("par_block_enum_reorder", [(PA, '''    If(bool, ast::Expr),
    Else,
    ElseIf(bool, ast::Expr),
    EndIf,
''', '''    Else,
    If(bool, ast::Expr),
    EndIf,
    ElseIf(bool, ast::Expr),
''')]),
 ("par_block_named", [(PA, '''    With(ast::Expr, ast::Ident),
    EndWith,''', '''    With { expr: ast::Expr, name: ast::Ident },
    EndWith,'''), (PA, "Block::With(expr, name) => {", "Block::With { expr, name } => {"), (PA, "Ok(Block::With(expr, name))", "Ok(Block::With { expr, name })")]),
 ("par_incl_match", [(PA, '''                let globals = if self.is_next_keyword(Keyword::With)? {
                    self.expect_keyword(Keyword::With)?;
                    Some(self.parse_expr()?)
                } else {
                    None
                };
                Ok(Block::Include(name, globals))''', '''                if !self.is_next_keyword(Keyword::With)? {
                    return Ok(Block::Include(name, None));
                }
                self.expect_keyword(Keyword::With)?;
                let globals = self.parse_expr()?;
                Ok(Block::Include(name, Some(globals)))''')]),
 ("par_parsekw_generic", [(PA, '''        let span = self.expect(Token::Keyword)?;
        let kw = &self.source()[span];
        Ok((Keyword::from_str(kw), span))''', '''        self.expect(Token::Keyword)
            .map(|span| (Keyword::from_str(&self.source()[span]), span))''')]),
 ("srch_starts_filter", [(SM, '''        let (kind, i, j) = self.find_at(haystack, at)?;
        if at == i {
            Some((kind, j))
        } else {
            None
        }''', '''        match self.find_at(haystack, at) {
            Some((kind, i, j)) if i == at => Some((kind, j)),
            _ => None,
        }''')]),
 ("srch_starts_comb", [(SM, '''        let (kind, i, j) = self.find_at(haystack, at)?;
        if at == i {
            Some((kind, j))
        } else {
            None
        }''', '''        self.find_at(haystack, at)
            .filter(|(_, i, _)| *i == at)
            .map(|(kind, _, j)| (kind, j))''')]),
 ("srch_find_q", [(SM, '''        self.imp.find_at(haystack, at).map(|m| {
            let kind = Kind::from_usize(m.pattern_id());
            (kind, m.start(), m.end())
        })''', '''        let m = self.imp.find_at(haystack, at)?;
        let (start, end) = (m.start(), m.end());
        Some((Kind::from_usize(m.pattern_id()), start, end))''')]),
 ("ac_find_for", [(AM, '''        while at < haystack.len() {
            state = self.next_state(state, haystack[at]);
            debug_assert!(
                state != FAIL,
                "an automaton should never return fail state for next state"
            );
            at += 1;

            if state == DEAD {
                debug_assert!(
                    last_match.is_some(),
                    "an automaton should never return a dead state without a prior match"
                );
                return last_match;
            }

            if let Some(m) = self.get_match(state, 0, at) {
                last_match = Some(m);
            }
        }
        last_match''', '''        loop {
            if at >= haystack.len() {
                break last_match;
            }
            let byte = haystack[at];
            at += 1;
            state = self.next_state(state, byte);
            debug_assert!(state != FAIL, "no fail state");
            if state == DEAD {
                debug_assert!(last_match.is_some(), "dead without a match");
                break last_match;
            }
            let m = self.get_match(state, 0, at);
            if m.is_some() {
                last_match = m;
            }
        }''')]),
 ("ac_getmatch", [(AM, '''        self.state(id)
            .matches
            .get(match_id)
            .map(|&pattern| Match { pattern, end })''', '''        match self.state(id).matches.get(match_id) {
            Some(pattern) => Some(Match { pattern: *pattern, end }),
            None => None,
        }''')]),
 ("ac_next_while", [(AM, '''        loop {
            let state = self.state(id);
            let next = state.next_state(byte);
            if next != FAIL {
                return next;
            }
            id = state.fail;
        }''', '''        while self.state(id).next_state(byte) == FAIL {
            id = self.state(id).fail;
        }
        self.state(id).next_state(byte)''')]),
 ("ac_bfs_reorder", [(AB, '''                let match_depth = if self.start().is_match() {
                    Some(0)
                } else {
                    None
                };
                queue.push_back((next, match_depth));
''', '''                let match_depth = self.start().is_match().then(|| 0);
                queue.push_back((next, match_depth));
''')]),
 ("ac_trie_match", [(AB, '''                if next == FAIL {
                    let next = self.push_state(depth + 1);
                    self.state_mut(id).set_transition(byte, next);
                    id = next;
                } else {
                    id = next;
                }''', '''                id = if next != FAIL {
                    next
                } else {
                    let new = self.push_state(depth + 1);
                    self.state_mut(id).set_transition(byte, new);
                    new
                };''')]),
 ("ac_fail_fn", [(AB, '''                let fail = {
                    let mut id = self.state(curr).fail;
                    while self.state(id).next_state(byte) == FAIL {
                        id = self.state(id).fail;
                    }
                    self.state(id).next_state(byte)
                };
''', '''                let fail = self.follow(self.state(curr).fail, byte);
'''), (AB, '''    fn copy_matches(''', '''    fn follow(&self, mut id: S, byte: u8) -> S {
        loop {
            match self.state(id).next_state(byte) {
                FAIL => id = self.state(id).fail,
                next => return next,
            }
        }
    }

    fn copy_matches(''')]),
 ("span_combine_if", [(SP, '''        let m = min(self.m, other.m);
        let n = max(self.n, other.n);
        Self { m, n }''', '''        Self {
            m: self.m.min(other.m),
            n: self.n.max(other.n),
        }''')]),
 ("span_from", [(SP, '''        Self {
            m: r.start,
            n: r.end,
        }''', '''        let Range { start: m, end: n } = r;
        Span { m, n }''')]),
 ("syn_build_loop", [(TS, '''        let mut patterns = Vec::new();
        if let Some((begin, end)) = self.expr {
            patterns.push((Kind::BeginExpr, begin.into()));
            patterns.push((Kind::EndExpr, end.into()));
            patterns.push((Kind::BeginExprTrim, format!("{begin}-")));
            patterns.push((Kind::EndExprTrim, format!("-{end}")));
        };
''', '''        let mut patterns: Vec<(Kind, String)> = Vec::with_capacity(12);
        if let Some((begin, end)) = self.expr {
            patterns.push((Kind::BeginExpr, begin.to_string()));
            patterns.push((Kind::EndExpr, end.to_owned()));
            patterns.push((Kind::BeginExprTrim, format!("{begin}-")));
            patterns.push((Kind::EndExprTrim, format!("-{end}")));
        }
''')]),
 ("syn_expr_assert", [(TS, '''        assert!(!begin_expr.is_empty() && !end_expr.is_empty());
''', '''        assert!(!begin_expr.is_empty());
        assert!(!end_expr.is_empty());
''')]),
]
