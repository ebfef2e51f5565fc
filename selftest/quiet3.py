ER = "src/error.rs"
FM = "src/fmt.rs"
LI = "src/lib.rs"
RM = "src/render/mod.rs"
FI = "src/filters/mod.rs"
FA = "src/filters/args.rs"
VF = "src/value/from.rs"
VC = "src/value/cow.rs"
SM = "src/value/ser/map.rs"
SL = "src/value/ser/list.rs"
SV = "src/value/ser/variants.rs"
SS = "src/value/ser/mod.rs"
E = [
 ("err_ctor_helper", [(ER, '''            kind: ErrorKind::Syntax,
            name: None,
            reason: Some(reason.into()),
            pretty: Some(Pretty::build(source, span.into())),
        }
    }
''', '''            ..Self::at(ErrorKind::Syntax, Some(reason.into()), source, span.into())
        }
    }

    fn at(kind: ErrorKind, reason: Option<String>, source: &str, span: Span) -> Self {
        let pretty = Pretty::build(source, span);
        Self {
            kind,
            name: None,
            reason,
            pretty: Some(pretty),
        }
    }
'''), (ER, '''            kind: ErrorKind::Render,
            name: None,
            reason: Some(reason.into()),
            pretty: Some(Pretty::build(source, span.into())),
''', '''            ..Self::at(ErrorKind::Render, Some(reason.into()), source, span.into())
''')]),
 ("err_name_match", [(ER, '''        self.name.get_or_insert(name);
        self''', '''        if self.name.is_none() {
            self.name = Some(name);
        }
        self''')]),
 ("err_enrich_if", [(ER, '''        self.pretty
            .get_or_insert_with(|| Pretty::build(source, span.into()));
        self''', '''        if self.pretty.is_none() {
            let span = span.into();
            self.pretty = Some(Pretty::build(source, span));
        }
        self''')]),
 ("err_source_iflet", [(ER, '''        match &self.kind {
            ErrorKind::Io(err) => Some(err),
            _ => None,
        }''', '''        if let ErrorKind::Io(err) = &self.kind {
            return Some(err);
        }
        None''')]),
 ("err_display_ifs", [(ER, '''        match (&self.reason, &self.pretty) {
            (Some(r), Some(p)) if f.alternate() => {
                write!(f, "{msg}")?;
                p.fmt_with_reason(f, self.name.as_deref(), r)
            }
            (Some(reason), _) => write!(f, "{msg}: {reason}"),
            _ => write!(f, "{msg}"),
        }''', '''        let reason = match &self.reason {
            Some(reason) => reason,
            None => return write!(f, "{msg}"),
        };
        if let (true, Some(p)) = (f.alternate(), &self.pretty) {
            write!(f, "{msg}")?;
            return p.fmt_with_reason(f, self.name.as_deref(), reason);
        }
        write!(f, "{msg}: {reason}")''')]),
 ("err_lncol_loop", [(ER, '''    for (i, line) in lines.iter().enumerate() {
        let len = line.len() + 1;
        if n + len > offset {
            return (i, display_width(&line[..offset - n]));
        }
        n += len;
    }''', '''    let mut i = 0;
    while i < lines.len() {
        let line = lines[i];
        let end = n + line.len() + 1;
        if offset < end {
            return (i, display_width(&line[..offset - n]));
        }
        n = end;
        i += 1;
    }''')]),
 ("err_lncol_lastmatch", [(ER, '''    (
        lines.len(),
        lines.last().map(|l| display_width(l)).unwrap_or(0),
    )''', '''    let col = match lines.last() {
        Some(line) => display_width(line),
        None => 0,
    };
    (lines.len(), col)''')]),
 ("err_build_split", [(ER, '''        let width = max(1, display_width(&source[span]));
        let text = lines
            .get(ln)
            .unwrap_or_else(|| lines.last().unwrap())
            .to_string();
''', '''        let mut width = display_width(&source[span]);
        if width < 1 {
            width = 1;
        }
        let text = match lines.get(ln) {
            Some(line) => line.to_string(),
            None => lines.last().unwrap().to_string(),
        };
''')]),
 ("err_width_maxmethod", [(ER, '''        let width = max(1, display_width(&source[span]));''', '''        let width = display_width(&source[span]).max(1);'''), (ER, '''use std::cmp::max;

''', '''''' + "\n")]),
 ("fmt_err_message", [(FM, '''        match &self.0 {
            Some(msg) => write!(f, "{msg}"),
            None => write!(f, "format error"),
        }''', '''        if let Some(msg) = &self.0 {
            write!(f, "{}", msg)
        } else {
            write!(f, "format error")
        }''')]),
 ("lib_discr_helper", [(LI, '''        self.functions
            .insert(name.into(), EngineBoxFn::Formatter(Box::new(f)))
            .map(|f| f.discriminant())
''', '''        self.insert_function(name.into(), EngineBoxFn::Formatter(Box::new(f)))
'''), (LI, '''        self.functions
            .insert(name.into(), EngineBoxFn::Filter(filters::new(f)))
            .map(|f| f.discriminant())
''', '''        self.insert_function(name.into(), EngineBoxFn::Filter(filters::new(f)))
'''), (LI, '''    pub fn remove_function(''', '''    fn insert_function(&mut self, name: Cow<'engine, str>, f: EngineBoxFn) -> Option<EngineFn> {
        let old = self.functions.insert(name, f)?;
        Some(old.discriminant())
    }

    /// Remove a function by name.
    pub fn remove_function(''')]),
 ("lib_remove_match", [(LI, '''        self.functions.remove(name).map(|f| f.discriminant())
''', '''        match self.functions.remove(name) {
            Some(f) => Some(f.discriminant()),
            None => None,
        }
''')]),
 ("lib_addt_question", [(LI, '''        match compile::template(self, source.into()) {
            Ok(template) => {
                self.templates.insert(name.into(), template);
                Ok(())
            }
            Err(err) => Err(err.with_template_name(name.into().into())),
        }''', '''        let name = name.into();
        let template = match compile::template(self, source.into()) {
            Ok(template) => template,
            Err(err) => return Err(err.with_template_name(name.into_owned())),
        };
        self.templates.insert(name, template);
        Ok(())''')]),
 ("lib_template_unwrap_or", [(LI, '''        match self.get_template(name) {
            Some(template) => template,
            None => panic!("template with name '{}' does not exist in engine", name),
        }''', '''        if let Some(template) = self.get_template(name) {
            return template;
        }
        panic!("template with name '{name}' does not exist in engine")''')]),
 ("lib_get_template_let", [(LI, '''        self.templates
            .get_key_value(name)
            .map(|(name, template)| TemplateRef {
                engine: self,
                name,
                template,
            })''', '''        let (name, template) = self.templates.get_key_value(name)?;
        Some(TemplateRef {
            engine: self,
            name: name.as_ref(),
            template,
        })''')]),
 ("lib_remove_template_match", [(LI, '''        self.templates.remove(name).is_some()''', '''        let removed = self.templates.remove(name);
        matches!(removed, Some(_))''')]),
 ("lib_compile_map", [(LI, '''        let template = compile::template(self, source.into())?;
        Ok(Template { template })''', '''        compile::template(self, source.into()).map(|template| Template { template })''')]),
 ("lib_with_syntax_let", [(LI, '''        Self {
            searcher: Searcher::new(syntax),
            default_formatter: &fmt::default,
            functions: BTreeMap::new(),
            templates: BTreeMap::new(),
            max_include_depth: 64,
        }''', '''        let searcher = Searcher::new(syntax);
        let mut engine = Self {
            searcher,
            default_formatter: &fmt::default,
            functions: BTreeMap::default(),
            templates: BTreeMap::default(),
            max_include_depth: DEFAULT_DEPTH,
        };
        engine.set_default_formatter(&fmt::default);
        engine'''), (LI, '''impl<'engine> Engine<'engine> {
''', '''const DEFAULT_DEPTH: usize = 1 << 6;

impl<'engine> Engine<'engine> {
''')]),
 ("lib_source_asref", [(LI, '''    pub fn source(&self) -> &'render str {
        &self.template.source
''', '''    pub fn source(&self) -> &'render str {
        self.template.source.as_ref()
''')]),
 ("lib_discriminant_iflet", [(LI, '''        match self {
            #[cfg(feature = "filters")]
            Self::Filter(_) => EngineFn::Filter,
            Self::Formatter(_) => EngineFn::Formatter,
        }
    }
}

impl std::fmt::Debug for EngineBoxFn''', '''        #[cfg(feature = "filters")]
        if let Self::Filter(_) = self {
            return EngineFn::Filter;
        }
        EngineFn::Formatter
    }
}

impl std::fmt::Debug for EngineBoxFn''')]),
 ("rm_tostring_helper", [(RM, '''        let Self { globals, inner } = self;
        match globals {
            Globals::Owned(result) => {
                let value = result?;
                let stack = Stack::new(&value);
                let x = to_string(inner, stack);
                drop(value);
                x
            }
            Globals::Borrowed(value) => {
                let stack = Stack::new(value);
                to_string(inner, stack)
            }
            Globals::Fn(value_fn) => {
                let stack = Stack::with_value_fn(&value_fn);
                to_string(inner, stack)
            }
        }''', '''        match self.globals {
            Globals::Owned(Err(err)) => Err(err),
            Globals::Owned(Ok(value)) => to_string(self.inner, Stack::new(&value)),
            Globals::Borrowed(value) => to_string(self.inner, Stack::new(value)),
            Globals::Fn(value_fn) => to_string(self.inner, Stack::with_value_fn(&value_fn)),
        }''')]),
 ("rm_towriter_match", [(RM, '''    RendererImpl { inner, stack }
        .render(&mut f)
        .map_err(|err| w.take_err().map(Error::from).unwrap_or(err))''', '''    match (RendererImpl { inner, stack }).render(&mut f) {
        Ok(()) => Ok(()),
        Err(err) => match w.take_err() {
            Some(io) => Err(Error::from(io)),
            None => Err(err),
        },
    }''')]),
 ("rm_tostring_match", [(RM, '''    RendererImpl { inner, stack }.render(&mut f)?;
    Ok(s)''', '''    let renderer = RendererImpl { inner, stack };
    renderer.render(&mut f).map(|()| s)''')]),
 ("rm_serde_match", [(RM, '''            Globals::Owned(crate::to_value(globals)),
''', '''            Globals::Owned(match crate::to_value(globals) {
                Ok(value) => Ok(value),
                Err(err) => Err(err),
            }),
''')]),
 ("rm_new_setters", [(RM, '''    pub fn with_max_include_depth(mut self, depth: usize) -> Self {
        self.inner.max_include_depth = Some(depth);
        self''', '''    pub fn with_max_include_depth(self, depth: usize) -> Self {
        let Self { globals, inner } = self;
        Self {
            globals,
            inner: RendererInner {
                max_include_depth: Some(depth),
                ..inner
            },
        }''')]),
 ("args_bool_iflet", [(FA, '''        match v {
            Value::Bool(b) => Ok(*b),
            v => Err(Error::Type("bool", v.human())),
        }''', '''        if let Value::Bool(b) = *v {
            return Ok(b);
        }
        Err(Error::Type("bool", v.human()))''')]),
 ("args_int_match", [(FA, '''                        Value::Integer(i) => (*i).try_into().map_err(|_| {
                            Error::TryFromInt(stringify!($ty), *i)
                        }),''', '''                        &Value::Integer(i) => match <$ty>::try_from(i) {
                            Ok(n) => Ok(n),
                            Err(_) => Err(Error::TryFromInt(stringify!($ty), i)),
                        },''')]),
 ("args_string_clone", [(FA, '''            Value::String(s) => Ok(s.to_owned()),''', '''            Value::String(s) => Ok(s.clone()),''')]),
 ("args_cowmut_deref", [(FA, '''        let v: &'a Value = &*v;
        match v {
            Value::String(s) => Ok(s),
            v => Err(Error::Type("&str", v.human())),
        }''', '''        Self::from_value_ref(v)''')]),
 ("from_vec_loop", [(VF, '''    fn from(list: Vec<V>) -> Self {
        Self::List(list.into_iter().map(Into::into).collect())''', '''    fn from(list: Vec<V>) -> Self {
        let mut out = Vec::with_capacity(list.len());
        for item in list {
            out.push(item.into());
        }
        Self::List(out)''')]),
 ("from_vec_iter", [(VF, '''    fn from(list: Vec<V>) -> Self {
        Self::List(list.into_iter().map(Into::into).collect())''', '''    fn from(list: Vec<V>) -> Self {
        list.into_iter().collect()''')]),
 ("from_array_vec", [(VF, '''    fn from(list: [V; N]) -> Self {
        Self::List(list.into_iter().map(Into::into).collect())''', '''    fn from(list: [V; N]) -> Self {
        Self::List(list.map(Into::into).into())''')]),
 ("from_map_loop", [(VF, '''    fn from(map: HashMap<K, V>) -> Self {
        Self::Map(map.into_iter().map(|(k, v)| (k.into(), v.into())).collect())''', '''    fn from(map: HashMap<K, V>) -> Self {
        let mut out = BTreeMap::new();
        for (k, v) in map {
            out.insert(k.into(), v.into());
        }
        Self::Map(out)''')]),
 ("from_map_iter", [(VF, '''    fn from(map: BTreeMap<K, V>) -> Self {
        Self::Map(map.into_iter().map(|(k, v)| (k.into(), v.into())).collect())''', '''    fn from(map: BTreeMap<K, V>) -> Self {
        Self::from_iter(map)''')]),
 ("from_opt_mapor", [(VF, '''        match opt {
            None => Self::None,
            Some(value) => value.into(),
        }''', '''        opt.map_or(Self::None, Into::into)''')]),
 ("from_int_into", [(VF, '''Self::Integer(i64::from(i))''', '''Self::Integer(i.into())''')]),
 ("from_str_owned", [(VF, '''Self::String(String::from(s))''', '''Self::String(s.to_owned())''')]),
 ("cow_take_iflet", [(VC, '''        match self {
            Self::Borrowed(v) => v.clone(),
            Self::Owned(v) => std::mem::take(v),
        }''', '''        if let Self::Owned(v) = self {
            return std::mem::replace(v, Value::None);
        }
        Value::clone(self)''')]),
 ("cow_deref_ref", [(VC, '''            Self::Borrowed(v) => v,
            Self::Owned(v) => v,
        }
    }
}''', '''            &Self::Borrowed(v) => v,
            Self::Owned(ref v) => v,
        }
    }
}''')]),
 ("ser_key_match", [(SM, '''        self.next_key = Some(key.serialize(MapKeySerializer)?);
        Ok(())''', '''        match key.serialize(MapKeySerializer) {
            Ok(k) => {
                self.next_key = Some(k);
                Ok(())
            }
            Err(e) => Err(e),
        }''')]),
 ("ser_value_let", [(SM, '''        let key = self.next_key.take().unwrap();
        self.map.insert(key, to_value(value)?);
        Ok(())''', '''        let key = self.next_key.take().unwrap();
        let value = to_value(value)?;
        let _ = self.map.insert(key, value);
        Ok(())''')]),
 ("ser_field_direct", [(SM, '''        serde::ser::SerializeMap::serialize_entry(self, key, value)''', '''        serde::ser::SerializeMap::serialize_key(self, key)?;
        serde::ser::SerializeMap::serialize_value(self, value)''')]),
 ("ser_key_fmt", [(SM, '''    fn serialize_u8(self, v: u8) -> Result<Self::Ok> {
        Ok(v.to_string())''', '''    fn serialize_u8(self, v: u8) -> Result<Self::Ok> {
        Ok(format!("{v}"))''')]),
 ("ser_key_char", [(SM, '''        Ok(String::from(v))''', '''        Ok(v.to_string())''')]),
 ("ser_list_match", [(SL, '''        self.list.push(to_value(value)?);
        Ok(())
    }

    fn end(self) -> Result<Self::Ok> {
        Ok(Value::List(self.list))
    }
}

impl serde::ser::SerializeTuple ''', '''        let v = match to_value(value) {
            Ok(v) => v,
            Err(e) => return Err(e),
        };
        self.list.push(v);
        Ok(())
    }

    fn end(self) -> Result<Self::Ok> {
        let Self { list } = self;
        Ok(list.into())
    }
}

impl serde::ser::SerializeTuple ''')]),
 ("ser_variant_from", [(SV, '''        let mut map = BTreeMap::new();
        map.insert(self.name, Value::List(self.list));
        Ok(Value::Map(map))''', '''        Ok(Value::from([(self.name, Value::List(self.list))]))''')]),
 ("ser_variant_btfrom", [(SV, '''        let mut map = BTreeMap::new();
        map.insert(self.name, Value::Map(self.map));
        Ok(Value::Map(map))''', '''        Ok(Value::Map(BTreeMap::from([(self.name, Value::Map(self.map))])))''')]),

 ("fmt_default_wstr", [(FM, """        Value::String(s) => write!(f, "{s}")?,""", """        Value::String(s) => f.write_str(s)?,""")]),
 ("fmt_default_ret", [(FM, """        Value::None => {}
        Value::Bool(b) => write!(f, "{b}")?,
        Value::Integer(n) => write!(f, "{n}")?,
        Value::Float(n) => write!(f, "{n}")?,
        Value::String(s) => write!(f, "{s}")?,
        value => {
            return Err(Error::from(format!(
                "expression evaluated to unformattable type {}",
                value.human()
            )));
        }
    }
    Ok(())""", """        Value::None => return Ok(()),
        Value::Bool(true) => f.write_str("true")?,
        Value::Bool(false) => f.write_str("false")?,
        Value::Integer(n) => write!(f, "{}", n)?,
        Value::Float(n) => write!(f, "{}", n)?,
        Value::String(s) => write!(f, "{}", s)?,
        Value::List(_) | Value::Map(_) => {
            let msg = format!("expression evaluated to unformattable type {}", value.human());
            return Err(msg.into());
        }
    }
    Ok(())""")]),
 ("fmt_writer_helper", [(FM, """            .write_all(c.encode_utf8(&mut [0; 4]).as_bytes())
            .map_err(|e| {
                self.err = Some(e);
                fmt::Error
            })""", """            .write_all(c.encode_utf8(&mut [0; 4]).as_bytes())
            .or_else(|e| {
                self.err = Some(e);
                Err(fmt::Error)
            })""")]),
 ("fmt_writer_char_via_str", [(FM, """        self.writer
            .write_all(c.encode_utf8(&mut [0; 4]).as_bytes())
            .map_err(|e| {
                self.err = Some(e);
                fmt::Error
            })""", """        let mut buf = [0; 4];
        self.write_str(c.encode_utf8(&mut buf))""")]),
 ("fil_check_args_neg", [(FI, """    if state.args.len() == exp {
        Ok(())
    } else {
        Err(Error::render(
            format!("filter expected {exp} arguments"),
            state.source,
            state.filter.span,
        ))
    }""", """    if state.args.len() != exp {
        let msg = format!("filter expected {exp} arguments");
        return Err(Error::render(msg, state.source, state.filter.span));
    }
    Ok(())""")]),
 ("fil_new_chain", [(FI, """        let args = A::from_state(state)?;
        let result = Filter::filter(&f, args);
        FilterReturn::to_value(result)""", """        A::from_state(state).and_then(|args| f.filter(args).to_value())""")]),
 ("fil_getarg_let", [(FI, """    match &args[i] {
        BaseExpr::Var(var) => match stack.lookup_var(source, var)? {
            ValueCow::Borrowed(v) => {
                T::from_value_ref(v).map_err(|e| err_expected_arg(e, source, var.span()))
            }
            ValueCow::Owned(v) => {
                T::from_value(v).map_err(|e| err_expected_arg(e, source, var.span()))
            }
        },
        BaseExpr::Literal(lit) => {
            T::from_value_ref(&lit.value).map_err(|e| err_expected_arg(e, source, lit.span))
        }
    }""", """    let (result, span) = match &args[i] {
        BaseExpr::Literal(lit) => (T::from_value_ref(&lit.value), lit.span),
        BaseExpr::Var(var) => {
            let result = match stack.lookup_var(source, var)? {
                ValueCow::Borrowed(v) => T::from_value_ref(v),
                ValueCow::Owned(v) => T::from_value(v),
            };
            (result, var.span())
        }
    };
    match result {
        Ok(arg) => Ok(arg),
        Err(e) => Err(err_expected_arg(e, source, span)),
    }""")]),
 ("fil_state_q", [(FI, """        check_args(&state, 1)?;
        let err = |e| err_expected_val(e, state.source, state.filter.span);
        let v = V::from_cow_mut(state.value).map_err(err)?;
        let a = get_arg::<A>(state.source, state.stack, state.args, 0)?;
        Ok((v, a))""", """        check_args(&state, 1)?;
        let FilterState { stack, source, filter, value, args } = state;
        let v = match V::from_cow_mut(value) {
            Ok(v) => v,
            Err(e) => return Err(err_expected_val(e, source, filter.span)),
        };
        Ok((v, get_arg::<A>(source, stack, args, 0)?))""")]),
 ("fil_ret_match", [(FI, """        self.map(Into::into).map_err(FilterError::to_error)""", """        match self {
            Ok(v) => Ok(v.into()),
            Err(e) => Err(e.to_error()),
        }""")]),
 ("ser_bytes_loop", [(SS, """        Ok(Value::List(
            v.iter()
                .copied()
                .map(i64::from)
                .map(Value::Integer)
                .collect(),
        ))""", """        let mut list = Vec::with_capacity(v.len());
        for &b in v {
            list.push(Value::Integer(b.into()));
        }
        Ok(Value::List(list))""")]),
 ("ser_bytes_map", [(SS, """        Ok(Value::List(
            v.iter()
                .copied()
                .map(i64::from)
                .map(Value::Integer)
                .collect(),
        ))""", """        Ok(Value::List(v.iter().map(|b| Value::from(*b)).collect()))""")]),
 ("ser_value_match", [(SS, """                let mut m = serializer.serialize_map(Some(map.len()))?;
                for (k, v) in map {
                    m.serialize_entry(k, v)?;
                }
                m.end()""", """                let mut m = serializer.serialize_map(Some(map.len()))?;
                map.iter().try_for_each(|(k, v)| m.serialize_entry(k, v))?;
                m.end()""")]),
 ("ser_u64_match", [(SS, """        Ok(Value::Integer(i64::try_from(v).map_err(|_| {
            Error::custom("out of range integral type conversion attempted")
        })?))""", """        match i64::try_from(v) {
            Ok(i) => Ok(Value::Integer(i)),
            Err(_) => Err(Error::custom("out of range integral type conversion attempted")),
        }""")]),
 ("ser_u64_cmp", [(SS, """        Ok(Value::Integer(i64::try_from(v).map_err(|_| {
            Error::custom("out of range integral type conversion attempted")
        })?))""", """        if v > i64::MAX as u64 {
            return Err(Error::custom("out of range integral type conversion attempted"));
        }
        Ok(Value::Integer(v as i64))""")]),
 ("ser_variant_let", [(SS, """        let mut map = BTreeMap::new();
        map.insert(String::from(variant), to_value(value)?);
        Ok(Value::Map(map))""", """        let value = to_value(value)?;
        Ok(Value::from([(variant, value)]))""")]),
 ("ser_str_from", [(SS, """    fn serialize_str(self, v: &str) -> Result<Self::Ok> {
        Ok(Value::String(String::from(v)))""", """    fn serialize_str(self, v: &str) -> Result<Self::Ok> {
        Ok(v.into())""")]),
 ("ser_int_from", [(SS, """    fn serialize_u8(self, v: u8) -> Result<Self::Ok> {
        Ok(Value::Integer(i64::from(v)))""", """    fn serialize_u8(self, v: u8) -> Result<Self::Ok> {
        Ok(Value::Integer(v as i64))""")]),
 ("ser_seq_match", [(SS, """        Ok(SerializeList::with_capacity(len.unwrap_or(0)))""", """        Ok(match len {
            Some(n) => SerializeList::with_capacity(n),
            None => SerializeList::default(),
        })""")]),
]
