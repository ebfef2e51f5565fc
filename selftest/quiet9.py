"""Behaviour-preserving edits of functions the other batches leave alone, and of
how data is laid out between private functions."""
PA, BU, AC, SY, ER, AR, FM, RM, ST, RV, SM, SL, SR, SV, LX, CM, LB, CO, IT, VC, VF, VA, FT, PR, AS, SE = (
    "src/compile/parse.rs", "src/compile/search/ahocorasick/build.rs", "src/compile/search/ahocorasick/mod.rs",
    "src/types/syntax.rs", "src/error.rs", "src/filters/args.rs", "src/filters/mod.rs", "src/render/mod.rs",
    "src/render/stack.rs", "src/render/value.rs", "src/value/ser/map.rs", "src/value/ser/list.rs",
    "src/value/ser/mod.rs", "src/value/ser/variants.rs", "src/compile/lex.rs", "src/compile/mod.rs", "src/lib.rs",
    "src/render/core.rs", "src/render/iter.rs", "src/value/cow.rs", "src/value/from.rs", "src/value/mod.rs",
    "src/fmt.rs", "src/types/program.rs", "src/types/ast.rs", "src/compile/search/mod.rs")

E = [
 ("q9_kw_table", [(PA, '''    fn from_str(s: &str) -> Self {
        match s {
            "if" => Self::If,
            "not" => Self::Not,
            "else" => Self::Else,
            "endif" => Self::EndIf,
            "for" => Self::For,
            "in" => Self::In,
            "endfor" => Self::EndFor,
            "with" => Self::With,
            "as" => Self::As,
            "endwith" => Self::EndWith,
            "include" => Self::Include,
            "true" => Self::True,
            "false" => Self::False,
            _ => unreachable!(),
        }
    }''', '''    fn from_str(s: &str) -> Self {
        const ALL: [Keyword; 13] = [
            Keyword::If,
            Keyword::Not,
            Keyword::Else,
            Keyword::EndIf,
            Keyword::For,
            Keyword::In,
            Keyword::EndFor,
            Keyword::With,
            Keyword::As,
            Keyword::EndWith,
            Keyword::Include,
            Keyword::True,
            Keyword::False,
        ];
        for kw in ALL {
            if kw.human() == s {
                return kw;
            }
        }
        unreachable!()
    }''')]),
 ("q9_kw_option", [(PA, '''    fn from_str(s: &str) -> Self {
        match s {''', '''    fn from_str(s: &str) -> Self {
        Self::try_from_str(s).expect("lexer only produces known keywords")
    }

    fn try_from_str(s: &str) -> Option<Self> {
        let kw = match s {'''), (PA, '''            "false" => Self::False,
            _ => unreachable!(),
        }
    }''', '''            "false" => Self::False,
            _ => return None,
        };
        Some(kw)
    }''')]),
 ("q9_kw_all_const", [(PA, '''        &[
            "if", "not", "else", "endif", "for", "in", "endfor", "with", "as", "endwith",
            "include", "true", "false",
        ]''', '''        const ALL: &[&str] = &[
            "true", "false", "if", "not", "else", "endif", "for", "in", "endfor", "with", "as",
            "endwith", "include",
        ];
        ALL''')]),
 ("q9_push_state_ctor", [(BU, '''        let id = self.states.len();
        self.states.push(State {
            depth,
            fail: START,
            trans: [FAIL; 256],
            matches: vec![],
        });
        id
''', '''        self.states.push(empty_state(depth));
        self.states.len() - 1
'''), (BU, '', '''
fn empty_state(depth: usize) -> State {
    let trans = [FAIL; 256];
    State {
        matches: Vec::new(),
        trans,
        fail: START,
        depth,
    }
}
''')]),
 ("q9_ac_new", [(AC, '''        Builder::default().build(patterns)''', '''        let builder = Builder::default();
        builder.build(patterns)''')]),
 ("q9_lex_pair_split", [(LX, '''        match self {
            Self::BeginExpr => Self::EndExpr,
            Self::EndExpr => Self::BeginExpr,
            Self::BeginBlock => Self::EndBlock,
            Self::EndBlock => Self::BeginBlock,
            Self::BeginComment => Self::EndComment,
            Self::EndComment => Self::BeginComment,
            _ => panic!("not a tag"),
        }''', '''        if self.is_begin_tag() {
            match self {
                Self::BeginExpr => Self::EndExpr,
                Self::BeginBlock => Self::EndBlock,
                _ => Self::EndComment,
            }
        } else {
            match self {
                Self::EndExpr => Self::BeginExpr,
                Self::EndBlock => Self::BeginBlock,
                Self::EndComment => Self::BeginComment,
                _ => panic!("not a tag"),
            }
        }''')]),
 ("q9_lex_while_generic", [(LX, '''        (Token::Index, self.lex_while(iter, is_index))''', '''        let j = self.lex_while(iter, |c| is_index(c));
        (Token::Index, j)'''), (LX, '''        (Token::Whitespace, self.lex_while(iter, is_whitespace))''', '''        let end = self.lex_while(iter, |c| c == ' ' || c == '\\t');
        (Token::Whitespace, end)''')]),
 ("q9_template_scope", [(CM, '''    let ast = parse::Parser::new(engine, &source).parse_template()?;
    Ok(Compiler::new().compile_template(source, ast))''', '''    let ast = {
        let parser = parse::Parser::new(engine, &source);
        match parser.parse_template() {
            Ok(ast) => ast,
            Err(err) => return Err(err),
        }
    };
    let compiler = Compiler::new();
    Ok(compiler.compile_template(source, ast))''')]),
 ("q9_compiler_default", [(CM, '''#[cfg_attr(internal_debug, derive(Debug))]
struct Compiler {''', '''#[cfg_attr(internal_debug, derive(Debug))]
#[derive(Default)]
struct Compiler {'''), (CM, '''        Self { instrs: Vec::new() }''', '''        Self::default()''')]),
 ("q9_err_base", [(ER, '''        Self {
            kind: ErrorKind::Render,
            name: None,
            reason: Some(format!("reached maximum include depth ({max})")),
            pretty: None,
        }''', '''        Self::bare(
            ErrorKind::Render,
            Some(format!("reached maximum include depth ({max})")),
        )'''), (ER, '''            kind: ErrorKind::Filter,
            name: None,
            reason: Some(reason.into()),
            pretty: None,
        }''', '''            ..Self::bare(ErrorKind::Filter, Some(reason.into()))
        }'''), (ER, '''    /// Constructs a new syntax error.''', '''    fn bare(kind: ErrorKind, reason: Option<String>) -> Self {
        Self {
            kind,
            reason,
            name: None,
            pretty: None,
        }
    }

    /// Constructs a new syntax error.'''), (ER, '''        Self {
            kind: ErrorKind::Io(err),
            name: None,
            reason: None,
            pretty: None,
        }''', '''        Self::bare(ErrorKind::Io(err), None)'''), (ER, '''    fn from(_: std::fmt::Error) -> Self {
        Self {
            kind: ErrorKind::Format,
            name: None,
            reason: None,
            pretty: None,
        }''', '''    fn from(_: std::fmt::Error) -> Self {
        Self::bare(ErrorKind::Format, None)''')]),
 ("q9_err_located", [(ER, '''        Self {
            kind: ErrorKind::Syntax,
            name: None,
            reason: Some(reason.into()),
            pretty: Some(Pretty::build(source, span.into())),
        }''', '''        Self::located(ErrorKind::Syntax, Some(reason.into()), source, span.into())'''), (ER, '''    pub(crate) fn render(reason: impl Into<String>, source: &str, span: impl Into<Span>) -> Self {
        Self {
            kind: ErrorKind::Render,
            name: None,
            reason: Some(reason.into()),
            pretty: Some(Pretty::build(source, span.into())),
        }
    }''', '''    pub(crate) fn render(reason: impl Into<String>, source: &str, span: impl Into<Span>) -> Self {
        Self::located(ErrorKind::Render, Some(reason.into()), source, span.into())
    }

    fn located(kind: ErrorKind, reason: Option<String>, source: &str, span: Span) -> Self {
        let pretty = Pretty::build(source, span);
        Self {
            kind,
            name: None,
            reason,
            pretty: Some(pretty),
        }
    }'''), (ER, '''        Self {
            kind: ErrorKind::Format,
            name: None,
            reason: err.message(),
            pretty: Some(Pretty::build(source, span.into())),
        }''', '''        Self::located(ErrorKind::Format, err.message(), source, span.into())''')]),
 ("q9_err_custom", [(ER, '''            reason: Some(msg.to_string()),''', '''            reason: Some(format!("{msg}")),''')]),
 ("q9_err_enrich", [(ER, '''        self.pretty
            .get_or_insert_with(|| Pretty::build(source, span.into()));
        self''', '''        if self.pretty.is_none() {
            self.pretty = Some(Pretty::build(source, span.into()));
        }
        self'''), (ER, '''        self.name.get_or_insert(name);
        self''', '''        match self.name {
            Some(_) => self,
            None => Self {
                name: Some(name),
                ..self
            },
        }''')]),
 ("q9_err_display_label", [(ER, '''        let msg = match &self.kind {
            ErrorKind::Syntax => "invalid syntax",
            ErrorKind::Render => "render error",
            #[cfg(feature = "filters")]
            ErrorKind::Filter => "filter error",
            ErrorKind::Format => "format error",
            #[cfg(feature = "serde")]
            ErrorKind::Serialize => "serialize error",
            ErrorKind::Io(_) => "io error",
        };
        match (&self.reason, &self.pretty) {
            (Some(r), Some(p)) if f.alternate() => {
                write!(f, "{msg}")?;
                p.fmt_with_reason(f, self.name.as_deref(), r)
            }
            (Some(reason), _) => write!(f, "{msg}: {reason}"),
            _ => write!(f, "{msg}"),
        }''', '''        f.write_str(self.kind.label())?;
        let Some(reason) = &self.reason else {
            return Ok(());
        };
        match &self.pretty {
            Some(p) if f.alternate() => p.fmt_with_reason(f, self.name.as_deref(), reason),
            _ => write!(f, ": {reason}"),
        }'''), (ER, '''impl std::fmt::Display for Error {''', '''impl ErrorKind {
    fn label(&self) -> &'static str {
        match self {
            ErrorKind::Syntax => "invalid syntax",
            ErrorKind::Render => "render error",
            #[cfg(feature = "filters")]
            ErrorKind::Filter => "filter error",
            ErrorKind::Format => "format error",
            #[cfg(feature = "serde")]
            ErrorKind::Serialize => "serialize error",
            ErrorKind::Io(_) => "io error",
        }
    }
}

impl std::fmt::Display for Error {''')]),
 ("q9_to_ln_col_scan", [(ER, '''    let mut n = 0;
    for (i, line) in lines.iter().enumerate() {
        let len = line.len() + 1;
        if n + len > offset {
            return (i, display_width(&line[..offset - n]));
        }
        n += len;
    }''', '''    let mut rest = offset;
    for (i, line) in lines.iter().enumerate() {
        let len = line.len() + 1;
        if rest < len {
            return (i, display_width(&line[..rest]));
        }
        rest -= len;
    }''')]),
 ("q9_pretty_text", [(ER, '''        let text = lines
            .get(ln)
            .unwrap_or_else(|| lines.last().unwrap())
            .to_string();''', '''        let text = match lines.get(ln) {
            Some(line) => String::from(*line),
            None => String::from(*lines.last().unwrap()),
        };''')]),
 ("q9_args_owned_direct", [(AR, '''    fn from_value<'a>(v: Value) -> Result<Self::Output<'a>> {
        Self::from_value_ref(&v)
    }

    fn from_value_ref(v: &Value) -> Result<Self::Output<'_>> {
        match v {
            Value::String(s) => Ok(s.to_owned()),
            v => Err(Error::Type("string", v.human())),
        }
    }''', '''    fn from_value<'a>(v: Value) -> Result<Self::Output<'a>> {
        match v {
            Value::String(s) => Ok(s),
            v => Err(Error::Type("string", v.human())),
        }
    }

    fn from_value_ref(v: &Value) -> Result<Self::Output<'_>> {
        match v {
            Value::String(s) => Ok(s.clone()),
            v => Err(Error::Type("string", v.human())),
        }
    }''')]),
 ("q9_args_delegate", [(AR, '''    fn from_cow_mut<'a>(v: &'a mut ValueCow<'a>) -> Result<Self::Output<'a>> {
        let v: &'a Value = &*v;
        match v {
            Value::List(l) => Ok(l),
            v => Err(Error::Type("list", v.human())),
        }
    }''', '''    fn from_cow_mut<'a>(v: &'a mut ValueCow<'a>) -> Result<Self::Output<'a>> {
        Self::from_value_ref(v)
    }'''), (AR, '''    fn from_cow_mut<'a>(v: &'a mut ValueCow<'a>) -> Result<Self::Output<'a>> {
        let v: &'a Value = &*v;
        match v {
            Value::String(s) => Ok(s),
            v => Err(Error::Type("&str", v.human())),
        }
    }''', '''    fn from_cow_mut<'a>(v: &'a mut ValueCow<'a>) -> Result<Self::Output<'a>> {
        let v: &'a Value = &*v;
        if let Value::String(s) = v {
            return Ok(s.as_str());
        }
        Err(Error::Type("&str", v.human()))
    }''')]),
 ("q9_args_bool", [(AR, '''        match v {
            Value::Bool(b) => Ok(*b),
            v => Err(Error::Type("bool", v.human())),
        }''', '''        if let &Value::Bool(b) = v {
            Ok(b)
        } else {
            Err(Error::Type("bool", v.human()))
        }''')]),
 ("q9_args_int_match", [(AR, '''                        Value::Integer(i) => (*i).try_into().map_err(|_| {
                            Error::TryFromInt(stringify!($ty), *i)
                        }),''', '''                        &Value::Integer(i) => match <$ty>::try_from(i) {
                            Ok(n) => Ok(n),
                            Err(_) => Err(Error::TryFromInt(stringify!($ty), i)),
                        },''')]),
 ("q9_args_type_err", [(AR, '''            v => Err(Error::Type("()", v.human())),''', '''            v => err_type("()", v),'''), (AR, '''            v => Err(Error::Type("bool", v.human())),''', '''            v => err_type("bool", v),'''), (AR, '''impl FilterArg for () {''', '''fn err_type<T>(exp: &'static str, got: &Value) -> Result<T> {
    Err(Error::Type(exp, got.human()))
}

impl FilterArg for () {''')]),
 ("q9_get_arg_span", [(FM, '''    match &args[i] {
        BaseExpr::Var(var) => match stack.lookup_var(source, var)? {
            ValueCow::Borrowed(v) => {
                T::from_value_ref(v).map_err(|e| err_expected_arg(e, source, var.span()))
            }
            ValueCow::Owned(v) => {
                T::from_value(v).map_err(|e| err_expected_arg(e, source, var.span()))
            }
        },
        BaseExpr::Literal(lit) => {
            T::from_value_ref(&lit.value).map_err(|e| err_expected_arg(e, source, lit.span))
        }
    }''', '''    let (span, result) = match &args[i] {
        BaseExpr::Var(var) => {
            let result = match stack.lookup_var(source, var)? {
                ValueCow::Borrowed(v) => T::from_value_ref(v),
                ValueCow::Owned(v) => T::from_value(v),
            };
            (var.span(), result)
        }
        BaseExpr::Literal(lit) => (lit.span, T::from_value_ref(&lit.value)),
    };
    result.map_err(|e| err_expected_arg(e, source, span))''')]),
 ("q9_check_args", [(FM, '''    if state.args.len() == exp {
        Ok(())
    } else {
        Err(Error::render(
            format!("filter expected {exp} arguments"),
            state.source,
            state.filter.span,
        ))
    }''', '''    let got = state.args.len();
    if got != exp {
        let reason = format!("filter expected {} arguments", exp);
        return Err(Error::render(reason, state.source, state.filter.span));
    }
    Ok(())''')]),
 ("q9_from_state_macro", [(FM, '''        check_args(&state, 1)?;
        let err = |e| err_expected_val(e, state.source, state.filter.span);
        let v = V::from_cow_mut(state.value).map_err(err)?;
        let a = get_arg::<A>(state.source, state.stack, state.args, 0)?;
        Ok((v, a))''', '''        check_args(&state, 1)?;
        let FilterState {
            stack,
            source,
            filter,
            value,
            args,
        } = state;
        let v = match V::from_cow_mut(value) {
            Ok(v) => v,
            Err(e) => return Err(err_expected_val(e, source, filter.span)),
        };
        get_arg::<A>(source, stack, args, 0).map(|a| (v, a))''')]),
 ("q9_filter_new", [(FM, '''        let args = A::from_state(state)?;
        let result = Filter::filter(&f, args);
        FilterReturn::to_value(result)''', '''        A::from_state(state).and_then(|args| f.filter(args).to_value())''')]),
 ("q9_rm_run", [(RM, '''        let Self { globals, inner } = self;
        match globals {
            Globals::Owned(result) => {
                let value = result?;
                let stack = Stack::new(&value);
                to_writer(inner, stack, w)
            }
            Globals::Borrowed(value) => {
                let stack = Stack::new(value);
                to_writer(inner, stack, w)
            }
            Globals::Fn(value_fn) => {
                let stack = Stack::with_value_fn(&value_fn);
                to_writer(inner, stack, w)
            }
        }''', '''        let Self { globals, inner } = self;
        let owned;
        let boxed;
        let stack = match globals {
            Globals::Owned(result) => {
                owned = result?;
                Stack::new(&owned)
            }
            Globals::Borrowed(value) => Stack::new(value),
            Globals::Fn(value_fn) => {
                boxed = value_fn;
                Stack::with_value_fn(&boxed)
            }
        };
        to_writer(inner, stack, w)''')]),
 ("q9_rm_serde", [(RM, '''        Self::new(
            engine,
            template,
            template_name,
            Globals::Owned(crate::to_value(globals)),
        )''', '''        let value = crate::to_value(globals);
        Self::new(engine, template, template_name, Globals::Owned(value))''')]),
 ("q9_stack_newtype_pop", [(ST, '''    pub fn last_loop_state_mut(&mut self) -> &mut LoopState<'a> {
        match self.stack.last_mut().unwrap() {
            State::Loop(loop_state) => loop_state,
            _ => panic!("expected loop state"),
        }
    }''', '''    pub fn last_loop_state_mut(&mut self) -> &mut LoopState<'a> {
        if let Some(State::Loop(loop_state)) = self.stack.last_mut() {
            return loop_state;
        }
        panic!("expected loop state")
    }'''), (ST, '''        match self.stack.pop().unwrap() {
            State::Loop(state) => state,
            _ => panic!("expected loop state"),
        }''', '''        let Some(State::Loop(state)) = self.stack.pop() else {
            panic!("expected loop state");
        };
        state''')]),
 ("q9_stack_pop_helper", [(ST, '''        match self.stack.pop().unwrap() {
            State::Scope(globals) => globals,''', '''        match self.pop() {
            State::Scope(globals) => globals,'''), (ST, '''        match self.stack.pop().unwrap() {
            State::Var(name, value) => (name, value),''', '''        match self.pop() {
            State::Var(name, value) => (name, value),'''), (ST, '''    pub fn pop_boundary(&mut self) {
        match self.stack.pop().unwrap() {''', '''    fn pop(&mut self) -> State<'a> {
        self.stack.pop().expect("the stack is not empty")
    }

    pub fn pop_boundary(&mut self) {
        match self.pop() {''')]),
 ("q9_lookup_var_fn", [(ST, '''                State::ValueFn(value_fn) => {
                    let path: Vec<_> = v
                        .path
                        .iter()
                        .map(|member| {
                            let op = match member.op {
                                ast::AccessOp::Direct => ValueAccessOp::Direct,
                                ast::AccessOp::Optional => ValueAccessOp::Optional,
                            };
                            let access = match member.access {
                                ast::Access::Index(a) => ValueAccess::Index(a.value),
                                ast::Access::Key(a) => ValueAccess::Key(&source[a.span]),
                            };
                            ValueMember { op, access }
                        })
                        .collect();
                    return value_fn(&path)
                        .map(ValueCow::Owned)
                        .map_err(|reason| Error::render(reason, source, v.span()));
                }
''', '''                State::ValueFn(value_fn) => return call_value_fn(value_fn, source, v),
'''), (ST, '', '''
fn value_member<'s>(source: &'s str, member: &ast::Member) -> ValueMember<'s> {
    let access = match member.access {
        ast::Access::Index(index) => ValueAccess::Index(index.value),
        ast::Access::Key(key) => ValueAccess::Key(&source[key.span]),
    };
    let op = if matches!(member.op, ast::AccessOp::Optional) {
        ValueAccessOp::Optional
    } else {
        ValueAccessOp::Direct
    };
    ValueMember { op, access }
}

fn call_value_fn<'a>(f: &ValueFn<'_>, source: &str, v: &ast::Var) -> Result<ValueCow<'a>> {
    let mut path = Vec::with_capacity(v.path.len());
    for member in &v.path {
        path.push(value_member(source, member));
    }
    match f(&path) {
        Ok(value) => Ok(ValueCow::Owned(value)),
        Err(reason) => Err(Error::render(reason, source, v.span())),
    }
}
''')]),
 ("q9_as_bool_not", [(RV, '''        match &**self {
            Value::None | Value::Bool(false) | Value::Integer(0) => false,
            Value::Float(n) if *n == 0.0 => false,
            Value::String(s) if s.is_empty() => false,
            Value::List(l) if l.is_empty() => false,
            Value::Map(m) if m.is_empty() => false,
            _ => true,
        }''', '''        let value: &Value = self;
        match value {
            Value::None => false,
            Value::Bool(b) => *b,
            Value::Integer(i) => *i != 0,
            Value::Float(n) => *n != 0.0,
            Value::String(s) => !s.is_empty(),
            Value::List(l) => !l.is_empty(),
            Value::Map(m) => !m.is_empty(),
        }''')]),
 ("q9_lookup_walk", [(RV, '''    match value {
        ValueCow::Borrowed(mut value) => {
            for p in path {
                match lookup(source, value, p)? {
                    Some(v) => value = v,
                    None => return Ok(ValueCow::Borrowed(&Value::None)),
                }
            }
            Ok(ValueCow::Borrowed(value))
        }
        ValueCow::Owned(value) => {
            let mut value: &Value = value;
            for p in path {
                match lookup(source, value, p)? {
                    Some(v) => value = v,
                    None => return Ok(ValueCow::Borrowed(&Value::None)),
                }
            }
            Ok(ValueCow::Owned(value.clone()))
        }
    }
}
''', '''    match value {
        ValueCow::Borrowed(value) => {
            let found = walk(source, value, path)?;
            Ok(ValueCow::Borrowed(found.unwrap_or(&Value::None)))
        }
        ValueCow::Owned(value) => match walk(source, value, path)? {
            Some(found) => Ok(ValueCow::Owned(found.clone())),
            None => Ok(ValueCow::Borrowed(&Value::None)),
        },
    }
}

fn walk<'v>(source: &str, start: &'v Value, path: &[ast::Member]) -> Result<Option<&'v Value>> {
    let mut value = start;
    for member in path {
        value = match lookup(source, value, member)? {
            Some(next) => next,
            None => return Ok(None),
        };
    }
    Ok(Some(value))
}
''')]),
 ("q9_ser_list_field", [(SL, '''    fn serialize_element<T>(&mut self, value: &T) -> Result<()>
    where
        T: ?Sized + Serialize,
    {
        self.list.push(to_value(value)?);
        Ok(())
    }
''', '''    fn serialize_element<T>(&mut self, value: &T) -> Result<()>
    where
        T: ?Sized + Serialize,
    {
        to_value(value).map(|v| self.list.push(v))
    }
''')]),
 ("q9_ser_key", [(SM, '''        Ok(String::from(v))''', '''        let mut s = String::new();
        s.push(v);
        Ok(s)'''), (SM, '''    fn serialize_unit_variant(
        self,
        _name: &'static str,
        _variant_index: u32,
        variant: &'static str,
    ) -> Result<Self::Ok> {
        Ok(variant.to_owned())''', '''    fn serialize_unit_variant(
        self,
        _name: &'static str,
        _variant_index: u32,
        variant: &'static str,
    ) -> Result<Self::Ok> {
        self.serialize_str(variant)''')]),
 ("q9_ser_some", [(SM, '''        value.serialize(self)''', '''        value.serialize(MapKeySerializer)''')]),
 ("q9_core_frame_struct", [(CO, '''        let mut templates = vec![(self.inner.template, self.inner.template_name, 0, false)];
''', '''        let mut templates = vec![Frame {
            t: self.inner.template,
            tname: self.inner.template_name,
            pc: 0,
            has_scope: false,
        }];
'''), (CO, '''        while let Some((t, tname, pc, has_scope)) = templates.last_mut() {''', '''        while let Some(Frame {
            t,
            tname,
            pc,
            has_scope,
        }) = templates.last_mut()
        {'''), (CO, '''                    templates.push((template, Some(template_name.as_str()), 0, false));''', '''                    templates.push(Frame {
                        t: template,
                        tname: Some(template_name.as_str()),
                        pc: 0,
                        has_scope: false,
                    });'''), (CO, '''                    templates.push((template, Some(template_name.as_str()), 0, true));''', '''                    templates.push(Frame {
                        t: template,
                        tname: Some(template_name.as_str()),
                        pc: 0,
                        has_scope: true,
                    });'''), (CO, '''impl<'render, 'stack> RendererImpl<'render, 'stack>
where''', '''struct Frame<'render> {
    t: &'render Template<'render>,
    tname: Option<&'render str>,
    pc: usize,
    has_scope: bool,
}

impl<'render, 'stack> RendererImpl<'render, 'stack>
where''')]),
]
E += [
 ("q9_member_eq_by_hand", [(LB, '''#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct ValueMember<'a> {''', '''#[derive(Debug, Clone, Copy, Eq, Hash)]
pub struct ValueMember<'a> {'''), (LB, '''/// A key in a value path.''', '''impl PartialEq for ValueMember<'_> {
    fn eq(&self, other: &Self) -> bool {
        self.access == other.access && self.op == other.op
    }
}

/// A key in a value path.''')]),
 ("q9_lifetimes", [(IT, '''impl<'a> LoopState<'a> {''', '''impl<'v> LoopState<'v> {'''), (IT, '''        source: &'a str,
        vars: &'a ast::LoopVars,
        iterable: ValueCow<'a>,''', '''        source: &'v str,
        vars: &'v ast::LoopVars,
        iterable: ValueCow<'v>,'''), (IT, '''|vars: &'a ast::LoopVars|''', '''@ALL|vars: &'v ast::LoopVars|'''),
   (IT, '''Result<Option<ValueCow<'a>>>''', '''@ALLResult<Option<ValueCow<'v>>>''')]),
 ("q9_value_eq_by_hand", [("src/value/mod.rs", '''#[derive(Debug, Clone, PartialEq)]
pub enum Value {''', '''#[derive(Debug, Clone)]
pub enum Value {'''), ("src/value/mod.rs", '''impl Default for Value {''', '''impl PartialEq for Value {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Self::None, Self::None) => true,
            (Self::Bool(a), Self::Bool(b)) => a == b,
            (Self::Integer(a), Self::Integer(b)) => a == b,
            (Self::Float(a), Self::Float(b)) => a == b,
            (Self::String(a), Self::String(b)) => a == b,
            (Self::List(a), Self::List(b)) => a == b,
            (Self::Map(a), Self::Map(b)) => a == b,
            _ => false,
        }
    }
}

impl Default for Value {''')]),
]
