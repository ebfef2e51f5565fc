"""Behaviour-preserving edits, sixth set: conversions, filters, serialiser, formatter, engine, syntax."""
FR, CO, SE, SL, SM, SV = "src/value/from.rs", "src/value/cow.rs", "src/value/ser/mod.rs", "src/value/ser/list.rs", "src/value/ser/map.rs", "src/value/ser/variants.rs"
FI, FA, FM, LI, RM, ER = "src/filters/mod.rs", "src/filters/args.rs", "src/fmt.rs", "src/lib.rs", "src/render/mod.rs", "src/error.rs"
SY, SP, AS, VA = "src/types/syntax.rs", "src/types/span.rs", "src/types/ast.rs", "src/value/mod.rs"
E = [
 ("q6_from_vec_cap", [(FR, '''    fn from(list: Vec<V>) -> Self {
        Self::List(list.into_iter().map(Into::into).collect())
''', '''    fn from(list: Vec<V>) -> Self {
        let mut out = Vec::with_capacity(list.len());
        for item in list {
            out.push(item.into());
        }
        Self::List(out)
''')]),
 ("q6_from_vec_extend", [(FR, '''    fn from(list: Vec<V>) -> Self {
        Self::List(list.into_iter().map(Into::into).collect())
''', '''    fn from(list: Vec<V>) -> Self {
        let mut out = Vec::new();
        out.extend(list.into_iter().map(|item| item.into()));
        Value::List(out)
''')]),
 ("q6_from_vec_delegate", [(FR, '''    fn from(list: Vec<V>) -> Self {
        Self::List(list.into_iter().map(Into::into).collect())
''', '''    fn from(list: Vec<V>) -> Self {
        list.into_iter().collect()
''')]),
 ("q6_from_array_delegate", [(FR, '''    fn from(list: [V; N]) -> Self {
        Self::List(list.into_iter().map(Into::into).collect())
''', '''    fn from(list: [V; N]) -> Self {
        let mut values = Vec::with_capacity(N);
        for v in list {
            values.push(v.into());
        }
        Self::List(values)
''')]),
 ("q6_from_map_insert", [(FR, '''    fn from(map: HashMap<K, V>) -> Self {
        Self::Map(map.into_iter().map(|(k, v)| (k.into(), v.into())).collect())
''', '''    fn from(map: HashMap<K, V>) -> Self {
        let mut out = BTreeMap::new();
        for (k, v) in map {
            out.insert(k.into(), v.into());
        }
        Self::Map(out)
''')]),
 ("q6_from_pair_helper", [(FR, '''    fn from(map: BTreeMap<K, V>) -> Self {
        Self::Map(map.into_iter().map(|(k, v)| (k.into(), v.into())).collect())
''', '''    fn from(map: BTreeMap<K, V>) -> Self {
        Self::Map(entries(map))
'''), (FR, '''    fn from(map: HashMap<K, V>) -> Self {
        Self::Map(map.into_iter().map(|(k, v)| (k.into(), v.into())).collect())
''', '''    fn from(map: HashMap<K, V>) -> Self {
        Self::Map(entries(map))
'''), (FR, '''impl From<()> for Value {''', '''fn entries<K, V, I>(iter: I) -> BTreeMap<String, Value>
where
    K: Into<String>,
    V: Into<Value>,
    I: IntoIterator<Item = (K, V)>,
{
    iter.into_iter().map(|(k, v)| (k.into(), v.into())).collect()
}

impl From<()> for Value {''')]),
 ("q6_from_opt_iflet", [(FR, '''        match opt {
            None => Self::None,
            Some(value) => value.into(),
        }
''', '''        if let Some(value) = opt {
            value.into()
        } else {
            Self::None
        }
''')]),
 ("q6_from_opt_default", [(FR, '''        match opt {
            None => Self::None,
            Some(value) => value.into(),
        }
''', '''        opt.map_or(Value::None, Into::into)
''')]),
 ("q6_from_iter_push", [(FR, '''        Self::List(iter.into_iter().map(Into::into).collect())
    }
}

impl<K, V> FromIterator''', '''        let mut list = Vec::new();
        for item in iter {
            list.push(item.into());
        }
        Self::List(list)
    }
}

impl<K, V> FromIterator''')]),
 ("q6_from_iter_pairs", [(FR, '''        Self::Map(
            iter.into_iter()
                .map(|(k, v)| (k.into(), v.into()))
                .collect(),
        )
''', '''        let mut map = BTreeMap::new();
        for (key, value) in iter {
            let key: String = key.into();
            let value: Value = value.into();
            map.insert(key, value);
        }
        Self::Map(map)
''')]),
 ("q6_from_cow_match", [(FR, '''        Self::String(s.into_owned())
''', '''        match s {
            Cow::Borrowed(s) => Self::String(s.to_owned()),
            Cow::Owned(s) => Self::String(s),
        }
''')]),
 ("q6_from_str_tostring", [(FR, '''        Self::String(String::from(s))
''', '''        Self::String(s.to_string())
''')]),
 ("q6_from_str_delegate", [(FR, '''        Self::String(String::from(s))
''', '''        Self::from(s.to_owned())
''')]),
 ("q6_from_f32_as", [(FR, '''        Self::Float(f64::from(f))
''', '''        Self::Float(f as f64)
''')]),
 ("q6_from_int_as", [(FR, '''                    Self::Integer(i64::from(i))
''', '''                    Self::Integer(i as i64)
''')]),
 ("q6_cow_take_ref", [(CO, '''        match self {
            Self::Borrowed(v) => v.clone(),
            Self::Owned(v) => std::mem::take(v),
        }
''', '''        if let Self::Owned(v) = self {
            return std::mem::replace(v, Value::None);
        }
        Value::clone(self)
''')]),
 ("q6_ser_int_helper", [(SE, '''    fn serialize_i8(self, v: i8) -> Result<Self::Ok> {
        Ok(Value::Integer(i64::from(v)))
''', '''    fn serialize_i8(self, v: i8) -> Result<Self::Ok> {
        self.serialize_i64(i64::from(v))
'''), (SE, '''    fn serialize_u32(self, v: u32) -> Result<Self::Ok> {
        Ok(Value::Integer(i64::from(v)))
''', '''    fn serialize_u32(self, v: u32) -> Result<Self::Ok> {
        self.serialize_i64(v.into())
''')]),
 ("q6_ser_u64_if", [(SE, '''        Ok(Value::Integer(i64::try_from(v).map_err(|_| {
            Error::custom("out of range integral type conversion attempted")
        })?))
''', '''        match i64::try_from(v) {
            Ok(i) => self.serialize_i64(i),
            Err(_) => Err(Error::custom(
                "out of range integral type conversion attempted",
            )),
        }
''')]),
 ("q6_ser_u64_tryinto", [(SE, '''        Ok(Value::Integer(i64::try_from(v).map_err(|_| {
            Error::custom("out of range integral type conversion attempted")
        })?))
''', '''        v.try_into()
            .map(Value::Integer)
            .map_err(|_| Error::custom("out of range integral type conversion attempted"))
''')]),
 ("q6_ser_bytes_for", [(SE, '''        Ok(Value::List(
            v.iter()
                .copied()
                .map(i64::from)
                .map(Value::Integer)
                .collect(),
        ))
''', '''        let mut list = Vec::with_capacity(v.len());
        for &b in v {
            list.push(Value::Integer(i64::from(b)));
        }
        Ok(Value::List(list))
''')]),
 ("q6_ser_bytes_from", [(SE, '''            v.iter()
                .copied()
                .map(i64::from)
                .map(Value::Integer)
                .collect(),
''', '''            v.iter().map(|&b| Value::from(b)).collect(),
''')]),
 ("q6_ser_newtype_variant", [(SE, '''        let mut map = BTreeMap::new();
        map.insert(String::from(variant), to_value(value)?);
        Ok(Value::Map(map))
''', '''        let value = to_value(value)?;
        let mut map = BTreeMap::new();
        map.insert(variant.to_string(), value);
        Ok(Value::Map(map))
''')]),
 ("q6_ser_single_helper", [(SE, '''        let mut map = BTreeMap::new();
        map.insert(String::from(variant), to_value(value)?);
        Ok(Value::Map(map))
''', '''        Ok(single(String::from(variant), to_value(value)?))
'''), (SE, '''pub struct Serializer;
''', '''pub struct Serializer;

fn single(name: String, value: Value) -> Value {
    let mut map = BTreeMap::new();
    map.insert(name, value);
    Value::Map(map)
}
'''), (SV, '''        let mut map = BTreeMap::new();
        map.insert(self.name, Value::List(self.list));
        Ok(Value::Map(map))
''', '''        Ok(super::single(self.name, Value::List(self.list)))
'''), (SV, '''        let mut map = BTreeMap::new();
        map.insert(self.name, Value::Map(self.map));
        Ok(Value::Map(map))
''', '''        Ok(super::single(self.name, Value::Map(self.map)))
''')]),
 ("q6_ser_seq_default", [(SE, '''        Ok(SerializeList::with_capacity(len.unwrap_or(0)))
''', '''        match len {
            Some(len) => Ok(SerializeList::with_capacity(len)),
            None => Ok(SerializeList::default()),
        }
''')]),
 ("q6_ser_seq_unwrap_or_default", [(SE, '''        Ok(SerializeList::with_capacity(len.unwrap_or(0)))
''', '''        let capacity = len.unwrap_or_default();
        Ok(SerializeList::with_capacity(capacity))
''')]),
 ("q6_ser_map_key_helper", [(SM, '''        let key = self.next_key.take().unwrap();
        self.map.insert(key, to_value(value)?);
        Ok(())
''', '''        let key = self.take_key();
        let value = to_value(value)?;
        self.map.insert(key, value);
        Ok(())
'''), (SM, '''            next_key: None,
        }
    }
''', '''            next_key: None,
        }
    }

    fn take_key(&mut self) -> String {
        self.next_key.take().unwrap()
    }
''')]),
 ("q6_ser_map_new_default", [(SM, '''        Self {
            map: BTreeMap::new(),
            next_key: None,
        }
''', '''        Self::default()
''')]),
 ("q6_ser_struct_field", [(SM, '''        serde::ser::SerializeMap::serialize_entry(self, key, value)
''', '''        serde::ser::SerializeMap::serialize_key(self, key)?;
        serde::ser::SerializeMap::serialize_value(self, value)
''')]),
 ("q6_ser_key_replace", [(SM, '''        self.next_key = Some(key.serialize(MapKeySerializer)?);
        Ok(())
''', '''        let text = key.serialize(MapKeySerializer)?;
        self.next_key.replace(text);
        Ok(())
''')]),
 ("q6_ser_key_int_helper", [(SM, '''    fn serialize_i8(self, v: i8) -> Result<Self::Ok> {
        Ok(v.to_string())
''', '''    fn serialize_i8(self, v: i8) -> Result<Self::Ok> {
        self.collect_str(&v)
'''), (SM, '''    fn serialize_u64(self, v: u64) -> Result<Self::Ok> {
        Ok(v.to_string())
''', '''    fn serialize_u64(self, v: u64) -> Result<Self::Ok> {
        Ok(format!("{v}"))
''')]),
 ("q6_ser_key_char", [(SM, '''        Ok(String::from(v))
''', '''        let mut s = String::new();
        s.push(v);
        Ok(s)
''')]),
 ("q6_ser_list_direct", [(SL, '''        self.list.push(to_value(value)?);
        Ok(())
''', '''        to_value(value).map(|v| self.list.push(v))
''')]),
 ("q6_ser_tuple_end", [(SL, '''impl serde::ser::SerializeTuple for SerializeList {
    type Ok = Value;
    type Error = Error;

    fn serialize_element<T>(&mut self, value: &T) -> Result<()>
    where
        T: ?Sized + Serialize,
    {
        serde::ser::SerializeSeq::serialize_element(self, value)
''', '''impl serde::ser::SerializeTuple for SerializeList {
    type Ok = Value;
    type Error = Error;

    fn serialize_element<T>(&mut self, value: &T) -> Result<()>
    where
        T: ?Sized + Serialize,
    {
        let value = value.serialize(super::Serializer)?;
        self.list.push(value);
        Ok(())
''')]),
 ("q6_ser_variant_key", [(SV, '''        self.map.insert(key.into(), to_value(value)?);
        Ok(())
''', '''        let value = to_value(value)?;
        let _ = self.map.insert(key.to_string(), value);
        Ok(())
''')]),
 ("q6_ser_variant_collect", [(SV, '''        let mut map = BTreeMap::new();
        map.insert(self.name, Value::List(self.list));
        Ok(Value::Map(map))
''', '''        Ok(Value::Map(
            std::iter::once((self.name, Value::List(self.list))).collect(),
        ))
''')]),
 ("q6_fmt_default_display", [(FM, '''        Value::Bool(b) => write!(f, "{b}")?,
        Value::Integer(n) => write!(f, "{n}")?,
''', '''        Value::Bool(b) => write!(f, "{}", b)?,
        Value::Integer(n) => write!(f, "{}", n)?,
''')]),
 ("q6_fmt_default_str", [(FM, '''        Value::String(s) => write!(f, "{s}")?,
''', '''        Value::String(s) => f.write_str(s)?,
''')]),
 ("q6_fmt_default_bool", [(FM, '''        Value::Bool(b) => write!(f, "{b}")?,
''', '''        Value::Bool(true) => f.write_str("true")?,
        Value::Bool(false) => f.write_str("false")?,
''')]),
 ("q6_fmt_default_refuse", [(FM, '''        value => {
            return Err(Error::from(format!(
                "expression evaluated to unformattable type {}",
                value.human()
            )));
        }
    }
    Ok(())
''', '''        Value::List(_) | Value::Map(_) => return Err(unformattable(value)),
    }
    Ok(())
'''), (FM, '''#[inline]
pub fn default(''', '''#[cold]
fn unformattable(value: &Value) -> Error {
    Error::from(format!(
        "expression evaluated to unformattable type {}",
        value.human()
    ))
}

#[inline]
pub fn default(''')]),
 ("q6_fmt_writer_match", [(FM, '''        self.writer.write_all(s.as_bytes()).map_err(|e| {
            self.err = Some(e);
            fmt::Error
        })
''', '''        match self.writer.write_all(s.as_bytes()) {
            Ok(()) => Ok(()),
            Err(e) => {
                self.err = Some(e);
                Err(fmt::Error)
            }
        }
''')]),
 ("q6_fmt_writer_iflet", [(FM, '''        self.writer.write_all(s.as_bytes()).map_err(|e| {
            self.err = Some(e);
            fmt::Error
        })
''', '''        if let Err(e) = self.writer.write_all(s.as_bytes()) {
            self.err.replace(e);
            return Err(fmt::Error);
        }
        Ok(())
''')]),
 ("q6_fmt_writer_char", [(FM, '''        self.writer
            .write_all(c.encode_utf8(&mut [0; 4]).as_bytes())
            .map_err(|e| {
                self.err = Some(e);
                fmt::Error
            })
''', '''        let mut buf = [0; 4];
        let s = c.encode_utf8(&mut buf);
        self.write_str(s)
''')]),
 ("q6_fmt_display", [(FM, '''        match &self.0 {
            Some(msg) => write!(f, "{msg}"),
            None => write!(f, "format error"),
        }
''', '''        f.write_str(self.0.as_deref().unwrap_or("format error"))
''')]),
 ("q6_fmt_from_str", [(FM, '''        Self(Some(msg.to_owned()))
''', '''        Self::from(String::from(msg))
''')]),
 ("q6_lib_discr_fn", [(LI, '''        self.functions
            .insert(name.into(), EngineBoxFn::Formatter(Box::new(f)))
            .map(|f| f.discriminant())
''', '''        let name = name.into();
        let previous = self
            .functions
            .insert(name, EngineBoxFn::Formatter(Box::new(f)));
        previous.as_ref().map(EngineBoxFn::discriminant)
''')]),
 ("q6_lib_remove_iflet", [(LI, '''        self.functions.remove(name).map(|f| f.discriminant())
''', '''        if let Some(f) = self.functions.remove(name) {
            Some(f.discriminant())
        } else {
            None
        }
''')]),
 ("q6_lib_addt_early", [(LI, '''        match compile::template(self, source.into()) {
            Ok(template) => {
                self.templates.insert(name.into(), template);
                Ok(())
            }
            Err(err) => Err(err.with_template_name(name.into().into())),
        }
''', '''        let name = name.into();
        let template = match compile::template(self, source.into()) {
            Ok(template) => template,
            Err(err) => return Err(err.with_template_name(name.into_owned())),
        };
        self.templates.insert(name, template);
        Ok(())
''')]),
 ("q6_lib_template_expect", [(LI, '''        match self.get_template(name) {
            Some(template) => template,
            None => panic!("template with name '{}' does not exist in engine", name),
        }
''', '''        if let Some(template) = self.get_template(name) {
            return template;
        }
        panic!("template with name '{name}' does not exist in engine")
''')]),
 ("q6_lib_get_template", [(LI, '''        self.templates
            .get_key_value(name)
            .map(|(name, template)| TemplateRef {
                engine: self,
                name,
                template,
            })
''', '''        let (name, template) = self.templates.get_key_value(name)?;
        Some(TemplateRef {
            engine: self,
            name: name.as_ref(),
            template,
        })
''')]),
 ("q6_lib_remove_template", [(LI, '''        self.templates.remove(name).is_some()
''', '''        let removed = self.templates.remove(name);
        matches!(removed, Some(_))
''')]),
 ("q6_lib_compile_map", [(LI, '''        let template = compile::template(self, source.into())?;
        Ok(Template { template })
''', '''        compile::template(self, source.into()).map(|template| Template { template })
''')]),
 ("q6_lib_source_ref", [(LI, '''    pub fn source(&self) -> &'render str {
        &self.template.source
''', '''    pub fn source(&self) -> &'render str {
        self.template.source.as_ref()
''')]),
 ("q6_rm_stack_helper", [(RM, '''        let Self { globals, inner } = self;
        match globals {
            Globals::Owned(result) => {
                let value = result?;
                let stack = Stack::new(&value);
                to_writer(inner, stack, w)
            }
            Globals::Borrowed(value) => {
                let stack = Stack::new(value);
                to_writer(inner, stack, w)
            }
            Globals::Fn(value_fn) => {
                let stack = Stack::with_value_fn(&value_fn);
                to_writer(inner, stack, w)
            }
        }
''', '''        let value;
        let value_fn;
        let stack = match self.globals {
            Globals::Owned(result) => {
                value = result?;
                Stack::new(&value)
            }
            Globals::Borrowed(value) => Stack::new(value),
            Globals::Fn(f) => {
                value_fn = f;
                Stack::with_value_fn(&value_fn)
            }
        };
        to_writer(self.inner, stack, w)
''')]),
 ("q6_rm_writer_match", [(RM, '''    RendererImpl { inner, stack }
        .render(&mut f)
        .map_err(|err| w.take_err().map(Error::from).unwrap_or(err))
''', '''    let result = RendererImpl { inner, stack }.render(&mut f);
    match result {
        Ok(()) => Ok(()),
        Err(err) => match w.take_err() {
            Some(io) => Err(Error::from(io)),
            None => Err(err),
        },
    }
''')]),
 ("q6_rm_writer_mapor", [(RM, '''        .map_err(|err| w.take_err().map(Error::from).unwrap_or(err))
''', '''        .map_err(|err| w.take_err().map_or(err, Error::from))
''')]),
 ("q6_rm_string_cap", [(RM, '''    let mut s = String::with_capacity(inner.template.source.len());
''', '''    let capacity = inner.template.source.len();
    let mut s = String::new();
    s.reserve(capacity);
''')]),
 ("q6_rm_setter", [(RM, '''        self.inner.max_include_depth = Some(depth);
        self
''', '''        let Self { globals, mut inner } = self;
        inner.max_include_depth = Some(depth);
        Self { globals, inner }
'''), (RM, '''    pub fn with_max_include_depth(mut self, depth: usize)''', '''    pub fn with_max_include_depth(self, depth: usize)''')]),
 ("q6_err_name_if", [(ER, '''        self.name.get_or_insert(name);
        self
''', '''        if self.name.is_none() {
            self.name = Some(name);
        }
        self
''')]),
 ("q6_err_enrich_match", [(ER, '''        self.pretty
            .get_or_insert_with(|| Pretty::build(source, span.into()));
        self
''', '''        match self.pretty {
            Some(_) => self,
            None => {
                self.pretty = Some(Pretty::build(source, span.into()));
                self
            }
        }
''')]),
 ("q6_err_new_helper", [(ER, '''        Self {
            kind: ErrorKind::Syntax,
            name: None,
            reason: Some(reason.into()),
            pretty: Some(Pretty::build(source, span.into())),
        }
''', '''        Self::at(ErrorKind::Syntax, reason.into(), source, span.into())
'''), (ER, '''        Self {
            kind: ErrorKind::Render,
            name: None,
            reason: Some(reason.into()),
            pretty: Some(Pretty::build(source, span.into())),
        }
''', '''        Self::at(ErrorKind::Render, reason.into(), source, span.into())
'''), (ER, '''impl Error {
''', '''impl Error {
    fn at(kind: ErrorKind, reason: String, source: &str, span: Span) -> Self {
        Self {
            kind,
            name: None,
            reason: Some(reason),
            pretty: Some(Pretty::build(source, span)),
        }
    }

''')]),
 ("q6_err_lncol_helper", [(ER, '''    (
        lines.len(),
        lines.last().map(|l| display_width(l)).unwrap_or(0),
    )
''', '''    let col = match lines.last() {
        Some(line) => display_width(line),
        None => 0,
    };
    (lines.len(), col)
''')]),
 ("q6_err_lncol_sub", [(ER, '''    let mut n = 0;
    for (i, line) in lines.iter().enumerate() {
        let len = line.len() + 1;
        if n + len > offset {
            return (i, display_width(&line[..offset - n]));
        }
        n += len;
    }
''', '''    let mut start = 0;
    for (i, line) in lines.iter().enumerate() {
        let end = start + line.len() + 1;
        if offset < end {
            return (i, display_width(&line[..offset - start]));
        }
        start = end;
    }
''')]),
 ("q6_err_width_if", [(ER, '''        let width = max(1, display_width(&source[span]));
''', '''        let width = match display_width(&source[span]) {
            0 => 1,
            w => w,
        };
''')]),
 ("q6_err_text_match", [(ER, '''        let text = lines
            .get(ln)
            .unwrap_or_else(|| lines.last().unwrap())
            .to_string();
''', '''        let text = match lines.get(ln) {
            Some(line) => (*line).to_string(),
            None => lines.last().unwrap().to_string(),
        };
''')]),
 ("q6_err_display_kind", [(ER, '''        let msg = match &self.kind {
            ErrorKind::Syntax => "invalid syntax",
            ErrorKind::Render => "render error",
            #[cfg(feature = "filters")]
            ErrorKind::Filter => "filter error",
            ErrorKind::Format => "format error",
            #[cfg(feature = "serde")]
            ErrorKind::Serialize => "serialize error",
            ErrorKind::Io(_) => "io error",
        };
''', '''        let msg = self.kind.human();
'''), (ER, '''// Pretty
''', '''impl ErrorKind {
    fn human(&self) -> &'static str {
        match self {
            ErrorKind::Syntax => "invalid syntax",
            ErrorKind::Render => "render error",
            #[cfg(feature = "filters")]
            ErrorKind::Filter => "filter error",
            ErrorKind::Format => "format error",
            #[cfg(feature = "serde")]
            ErrorKind::Serialize => "serialize error",
            ErrorKind::Io(_) => "io error",
        }
    }
}

// Pretty
''')]),
 ("q6_fil_new_fnlet", [(FI, '''        let args = A::from_state(state)?;
        let result = Filter::filter(&f, args);
        FilterReturn::to_value(result)
''', '''        match A::from_state(state) {
            Ok(args) => f.filter(args).to_value(),
            Err(err) => Err(err),
        }
''')]),
 ("q6_fil_check_match", [(FI, '''    if state.args.len() == exp {
        Ok(())
    } else {
        Err(Error::render(
            format!("filter expected {exp} arguments"),
            state.source,
            state.filter.span,
        ))
    }
''', '''    match state.args.len() {
        n if n == exp => Ok(()),
        _ => {
            let msg = format!("filter expected {exp} arguments");
            Err(Error::render(msg, state.source, state.filter.span))
        }
    }
''')]),
 ("q6_fil_getarg_shared", [(FI, '''        BaseExpr::Var(var) => match stack.lookup_var(source, var)? {
            ValueCow::Borrowed(v) => {
                T::from_value_ref(v).map_err(|e| err_expected_arg(e, source, var.span()))
            }
            ValueCow::Owned(v) => {
                T::from_value(v).map_err(|e| err_expected_arg(e, source, var.span()))
            }
        },
''', '''        BaseExpr::Var(var) => {
            let value = stack.lookup_var(source, var)?;
            let converted = match value {
                ValueCow::Borrowed(v) => T::from_value_ref(v),
                ValueCow::Owned(v) => T::from_value(v),
            };
            converted.map_err(|e| err_expected_arg(e, source, var.span()))
        }
''')]),
 ("q6_fil_getarg_span", [(FI, '''    match &args[i] {
        BaseExpr::Var(var) => match stack.lookup_var(source, var)? {
            ValueCow::Borrowed(v) => {
                T::from_value_ref(v).map_err(|e| err_expected_arg(e, source, var.span()))
            }
            ValueCow::Owned(v) => {
                T::from_value(v).map_err(|e| err_expected_arg(e, source, var.span()))
            }
        },
        BaseExpr::Literal(lit) => {
            T::from_value_ref(&lit.value).map_err(|e| err_expected_arg(e, source, lit.span))
        }
    }
''', '''    let arg = &args[i];
    let result = match arg {
        BaseExpr::Var(var) => match stack.lookup_var(source, var)? {
            ValueCow::Borrowed(v) => T::from_value_ref(v),
            ValueCow::Owned(v) => T::from_value(v),
        },
        BaseExpr::Literal(lit) => T::from_value_ref(&lit.value),
    };
    result.map_err(|e| err_expected_arg(e, source, arg.span()))
''')]),
 ("q6_fil_ret_q", [(FI, '''        self.map(Into::into).map_err(FilterError::to_error)
''', '''        match self {
            Ok(value) => Ok(value.into()),
            Err(err) => Err(err.to_error()),
        }
''')]),
 ("q6_args_int_try", [(FA, '''                        Value::Integer(i) => (*i).try_into().map_err(|_| {
                            Error::TryFromInt(stringify!($ty), *i)
                        }),
''', '''                        &Value::Integer(i) => match <$ty>::try_from(i) {
                            Ok(n) => Ok(n),
                            Err(_) => Err(Error::TryFromInt(stringify!($ty), i)),
                        },
''')]),
 ("q6_args_str_iflet", [(FA, '''        let v: &'a Value = &*v;
        match v {
            Value::String(s) => Ok(s),
            v => Err(Error::Type("&str", v.human())),
        }
''', '''        Self::from_value_ref(v)
''')]),
 ("q6_args_cow_list", [(FA, '''        match v.take() {
            Value::List(l) => Ok(l),
            v => Err(Error::Type("list", v.human())),
        }
''', '''        let value = v.take();
        if let Value::List(list) = value {
            Ok(list)
        } else {
            Err(Error::Type("list", value.human()))
        }
''')]),
 ("q6_args_list_owned", [(FA, '''            Value::List(l) => Ok(l.clone()),
''', '''            Value::List(l) => Ok(l.to_vec()),
''')]),
 ("q6_args_string_owned", [(FA, '''            Value::String(s) => Ok(s.to_owned()),
            v => Err(Error::Type("string", v.human())),
        }
    }

    fn from_cow_mut''', '''            Value::String(s) => Ok(String::from(s.as_str())),
            other => Err(Error::Type("string", other.human())),
        }
    }

    fn from_cow_mut''')]),
 ("q6_args_string_value", [(FA, '''impl FilterArg for String {
    type Output<'a> = String;

    fn from_value<'a>(v: Value) -> Result<Self::Output<'a>> {
        Self::from_value_ref(&v)
    }
''', '''impl FilterArg for String {
    type Output<'a> = String;

    fn from_value<'a>(v: Value) -> Result<Self::Output<'a>> {
        match v {
            Value::String(s) => Ok(s),
            v => Err(Error::Type("string", v.human())),
        }
    }
''')]),
 ("q6_args_value_move", [(FA, '''impl FilterArg for Value {
    type Output<'a> = Value;

    fn from_value<'a>(v: Value) -> Result<Self::Output<'a>> {
        Self::from_value_ref(&v)
    }
''', '''impl FilterArg for Value {
    type Output<'a> = Value;

    fn from_value<'a>(v: Value) -> Result<Self::Output<'a>> {
        Ok(v)
    }
''')]),
 ("q6_syn_build_each", [(SY, '''        let mut patterns = Vec::new();
        if let Some((begin, end)) = self.expr {
            patterns.push((Kind::BeginExpr, begin.into()));
            patterns.push((Kind::EndExpr, end.into()));
            patterns.push((Kind::BeginExprTrim, format!("{begin}-")));
            patterns.push((Kind::EndExprTrim, format!("-{end}")));
        };
''', '''        let mut patterns: Vec<(Kind, String)> = Vec::with_capacity(12);
        if let Some((begin, end)) = self.expr {
            patterns.extend([
                (Kind::BeginExpr, begin.to_owned()),
                (Kind::EndExpr, end.to_owned()),
                (Kind::BeginExprTrim, format!("{begin}-")),
                (Kind::EndExprTrim, format!("-{end}")),
            ]);
        };
''')]),
 ("q6_syn_trim_concat", [(SY, '''            patterns.push((Kind::BeginBlockTrim, format!("{begin}-")));
            patterns.push((Kind::EndBlockTrim, format!("-{end}")));
''', '''            let mut trim = String::from(begin);
            trim.push('-');
            patterns.push((Kind::BeginBlockTrim, trim));
            patterns.push((Kind::EndBlockTrim, "-".to_owned() + end));
''')]),
 ("q6_syn_default_let", [(SY, '''        Syntax::builder()
            .expr("{{", "}}")
            .block("{%", "%}")
            .comment("{#", "#}")
            .build()
''', '''        let mut builder = SyntaxBuilder::new();
        builder.comment("{#", "#}");
        builder.block("{%", "%}");
        builder.expr("{{", "}}");
        builder.build()
''')]),
 ("q6_span_method", [(SP, '''        let Span { m, n } = span;
        &self[m..n]
''', '''        &self[Range::<usize>::from(span)]
'''), (SP, '''impl From<Range<usize>> for Span {''', '''impl From<Span> for Range<usize> {
    fn from(span: Span) -> Self {
        span.m..span.n
    }
}

impl From<Range<usize>> for Span {''')]),
 ("q6_span_combine_method", [(SP, '''        let m = min(self.m, other.m);
        let n = max(self.n, other.n);
        Self { m, n }
''', '''        Self {
            m: self.m.min(other.m),
            n: self.n.max(other.n),
        }
'''), (SP, "use std::cmp::{max, min};\n", "")]),
 ("q6_ast_expr_span", [(AS, '''        match self {
            Self::Base(base) => base.span(),
            Self::Call(call) => call.span,
        }
''', '''        if let Self::Call(call) = self {
            return call.span;
        }
        match self {
            Self::Base(base) => base.span(),
            Self::Call(_) => unreachable!(),
        }
''')]),
 ("q6_ast_var_index", [(AS, '''        self.path.first().unwrap()
''', '''        &self.path[0]
''')]),
 ("q6_val_default_derive", [(VA, '''#[derive(Debug, Clone, PartialEq)]
pub enum Value {''', '''#[derive(Debug, Clone, PartialEq, Default)]
pub enum Value {'''), (VA, '''    None,
    Bool(bool),''', '''    #[default]
    None,
    Bool(bool),'''), (VA, '''impl Default for Value {
    fn default() -> Self {
        Self::None
    }
}
''', '')]),
]
