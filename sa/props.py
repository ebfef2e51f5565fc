"""The properties: statement, what owns them in the code, how they are decided.

units   regexes over function paths; every function of the tree (or of the
        reference) they match is compared with the confirmed reference
select  {enum: variants}: a disagreement whose facts put an inspected value of
        that enum outside these variants belongs to another property
errors  whether which error is returned (kind, place) belongs to the property
rules   further static rules (rules.py)
"""

INSTR = "types::program::Instr"
STMT = "types::ast::Stmt"
BLOCK = "compile::parse::Block"
PSTATE = "compile::parse::State"
TOKEN = "compile::lex::Token"
KEYWORD = "compile::parse::Keyword"
EXPR = "types::ast::Expr"
RSTATE = "render::core::RenderState"
SSTATE = "render::stack::State"

P = []


def prop(id, title, statement, text, why, files, mech, units=(), select=None, errors=False, over=("programs", "inputs"),
         rules=(), observe=(), level="translation_validation", technique="", note="", state=(), effects=True, only=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": list(over), "text": text}, why=why,
                  files=list(files), mech=list(mech), units=list(units), select=select or {}, errors=errors, rules=list(rules),
                  observe=list(observe), level=level, technique=technique, note=note, state=list(state), effects=effects, only=only))


R1 = r"^render::core::RendererImpl::.*::render_one$"
RR = r"^render::core::RendererImpl::.*::render$"
CS = r"^compile::Compiler::(compile_stmt|compile_scope|compile_template|push|update_jump|new)$"
CE = r"^compile::Compiler::(compile_expr|compile_base_expr)$"
PT = r"^compile::parse::Parser::.*::parse_template$"
PB = r"^compile::parse::Parser::.*::parse_block$"
PPRIM = r"^compile::parse::Parser::.*::(expect|expect_keyword|is_next|is_next_keyword|peek|next|parse|parse_keyword|parse_ident|new|source)$"
LEXALL = r"^compile::lex::"

prop("C01", "Conditionals render exactly the branch that truthiness selects",
     "An `if` / `else if` / `else` chain renders the body of its first condition that holds (negated by `not`), otherwise the `else` body, otherwise nothing, and no expression or body after the chosen branch is evaluated. A value fails a condition exactly when it is none, false, integer 0, float 0.0 (either sign) or an empty string, list or map. Text and blocks before, between and after the branches are rendered in source order and nothing else is skipped or repeated.",
     "for every template, every nesting of conditionals and every value of every condition",
     "tests render a handful of chains with a handful of values; the guarantee is over every chain shape and value",
     ["src/render/value.rs", "src/render/core.rs", "src/compile/mod.rs", "src/compile/parse.rs"],
     [("truthiness of a value", "src/render/value.rs as_bool"), ("conditional jumps", "src/render/core.rs render_one"), ("branch layout and jump targets", "src/compile/mod.rs compile_stmt, update_jump"), ("if/else desugaring", "src/compile/parse.rs parse_template, parse_block, parse_if_cond")],
     units=[RR, r"as_bool$", R1, CS, PT, PB, r"::parse_if_cond$", r"value::cow::ValueCow<'_> as core::ops::deref::Deref>::deref", PPRIM, r"compile::parse::Keyword::"],
     select={INSTR: {"Jump", "JumpIfTrue", "JumpIfFalse"}, STMT: {"IfElse"}, BLOCK: {"If", "Else", "ElseIf", "EndIf"}, PSTATE: {"If"}, KEYWORD: {"If", "Not", "Else", "EndIf"}, TOKEN: {"Raw", "BeginExpr", "BeginBlock", "BeginComment", "Keyword"}},
     rules=[],
     observe=["Renderer::to_string output"])

prop("C02", "Loops visit every item once, in order, with correct loop metadata",
     "A `for` loop renders its body exactly once per list item in list order, or per map entry in key order, with the loop variables bound to that item (or key and value) and `loop.index`, `loop.first`, `loop.last` describing that iteration counted from 0. An empty list or map renders nothing, and anything that is not a list taking one variable or a map taking two is an error, never a silent skip. Borrowed and computed (filter-produced) iterables behave identically.",
     "for every iterable, body, nesting depth and place a loop may stand",
     "tests loop over fixed short lists and maps; order, count and metadata are claims over every length and nesting",
     ["src/render/iter.rs", "src/render/core.rs", "src/render/stack.rs", "src/compile/mod.rs", "src/compile/parse.rs"],
     [("iteration state", "src/render/iter.rs LoopState"), ("loop instructions", "src/render/core.rs render_one"), ("loop layout", "src/compile/mod.rs compile_stmt"), ("loop headers", "src/compile/parse.rs parse_loop_vars, parse_block")],
     units=[RR, r"render::iter::LoopState::", R1, CS, r"render::stack::Stack::.*::(last_loop_state_mut|pop_loop_state|push|lookup_var)$", PT, PB, r"::parse_loop_vars$", PPRIM, r"compile::parse::Keyword::"],
     select={INSTR: {"LoopStart", "LoopNext", "Jump"}, STMT: {"ForLoop"}, BLOCK: {"For", "EndFor"}, PSTATE: {"For"}, KEYWORD: {"For", "In", "EndFor"}, SSTATE: {"Loop"}, TOKEN: {"BeginBlock", "Keyword"}},
     rules=[],
     observe=["Renderer::to_string output"])

prop("C03", "Names resolve to the innermost binding; scopes end with their block",
     "A variable refers to the innermost enclosing `for` or `with` binding of that name and otherwise to the render context; bindings around an include are visible in the included template unless the include gives its own context. An inner binding shadows an outer one only inside its block and never changes the outer one. When a block or an include ends, exactly the bindings it introduced disappear. A name bound nowhere is an error, not an empty value.",
     "for every template and context, every nesting of loops, `with` blocks and includes",
     "tests shadow one name one level deep; scoping is a claim over every nesting and exit path",
     ["src/render/stack.rs", "src/render/core.rs", "src/render/iter.rs", "src/compile/mod.rs"],
     [("scope stack", "src/render/stack.rs Stack"), ("with and include instructions", "src/render/core.rs render, render_one"), ("with layout", "src/compile/mod.rs compile_stmt")],
     units=[r"^render::stack::Stack::", RR, R1, r"render::iter::LoopState::.*::(lookup_var|lookup_loop)$", r"render::value::lookup_path", CS, PT, PB, PPRIM, r"compile::parse::Keyword::", r"types::ast::Var::", r"render::iter::LoopState::.*::new$"],
     select={INSTR: {"LoopStart", "LoopNext", "WithStart", "WithEnd", "ExprStart", "Include", "IncludeWith"}, STMT: {"With", "ForLoop"}, BLOCK: {"With", "EndWith"}, PSTATE: {"With"}, KEYWORD: {"With", "As", "EndWith"}, TOKEN: {"BeginBlock", "Keyword"}},
     rules=[],
     observe=["Renderer::to_string output"])

prop("C04", "Optional access yields none exactly where a member is missing",
     "`a?.b` gives none when `a` is a map without `b` or a list without that index, and the rest of the path is then not evaluated; `a.b` with a missing member is an error. Optional access never hides another failure: using a key on a list, an index on a map, or any member of a scalar is an error for both operators, and a present member is returned unchanged by both. This holds alike for the render context, loop variables, `loop` itself, `with` variables and computed values.",
     "for every path, mix of operators, value shape and kind of variable",
     "tests cover a few paths of two or three members; the claim is over every mix of operators, shapes and variable kinds",
     ["src/render/value.rs", "src/render/iter.rs", "src/render/stack.rs", "src/compile/lex.rs", "src/compile/parse.rs"],
     [("member lookup", "src/render/value.rs lookup, lookup_path, lookup_path_maybe"), ("loop variable lookup", "src/render/iter.rs lookup_var, lookup_loop"), ("operator parsing", "src/compile/parse.rs parse_var"), ("operator lexing", "src/compile/lex.rs lex_question_dot")],
     units=[r"render::value::lookup", r"LoopState::.*::(lookup_var|lookup_loop)$", r"Stack::.*::lookup_var$", r"::parse_var$", r"::parse_access$", r"::lex_question_dot$", r"types::ast::Var::"],
     rules=[],
     observe=["Renderer::to_string output or error"])

prop("C05", "Each expression is emitted once through the formatter it names",
     "`{{ expr }}` evaluates its expression exactly once and writes it exactly once, in source order with the surrounding text, through the default formatter; when the last `| name` without arguments names a formatter that formatter is used instead, and when it names a filter the filtered value goes through the default formatter. A formatter used anywhere but last, or an unknown name, is an error. Raw text reaches the output byte for byte.",
     "for every expression, formatter and filter registration",
     "tests register a few formatters; which one runs, and that output is neither lost nor doubled, is a claim over every registration and chain",
     ["src/render/core.rs", "src/compile/mod.rs", "src/fmt.rs", "src/lib.rs"],
     [("emit instructions", "src/render/core.rs render_one"), ("choice of emit instruction", "src/compile/mod.rs pop_emit_expr"), ("formatter write-through", "src/fmt.rs Formatter"), ("registration", "src/lib.rs Engine::add_formatter, set_default_formatter")],
     units=[r"fmt::Writer", r"^render::to_", PT, r"Lexer::.*::(lex|next|lex_template)$", R1, r"Compiler::(pop_emit_expr|compile_stmt|compile_expr|compile_base_expr|compile_scope|push)$", r"^fmt::Formatter::", r"^<fmt::Formatter", r"Engine::.*::(set_default_formatter|add_formatter|with_syntax|new)$", r"EngineBoxFn"],
     select={INSTR: {"Emit", "EmitRaw", "EmitWith", "ExprStart", "ExprStartLit", "Apply"}, STMT: {"Raw", "InlineExpr"}, TOKEN: {"Raw", "BeginExpr", "EndExpr"}},
     observe=["Renderer::to_string output"])

prop("C06", "Filters receive exactly their value and arguments, in order",
     "In `v | f: a, b` the filter gets the value of `v` and the values of `a` and `b` in order, each converted to the declared type without altering it, and its result becomes the expression's value; chains apply left to right. A wrong number of arguments, a value of the wrong type, or an integer out of the declared type's range is an error and the filter is not called. A value that is only borrowed is never modified for later uses.",
     "for every filter signature, argument list and value",
     "tests cover a few signatures; 151 implementations of the calling convention exist and none may swap or drop an argument",
     ["src/filters/mod.rs", "src/filters/args.rs", "src/filters/impls.rs", "src/render/core.rs", "src/value/cow.rs", "src/compile/parse.rs"],
     [("argument count and fetch", "src/filters/mod.rs check_args, get_arg, FilterArgs"), ("argument types", "src/filters/args.rs"), ("calling convention", "src/filters/impls.rs"), ("apply instruction", "src/render/core.rs render_one"), ("argument lists", "src/compile/parse.rs parse_args, parse_expr")],
     units=[r"^value::from::", PPRIM, r"^filters::", r"as filters::", R1, CE, r"::(parse_args|parse_expr|parse_base_expr)$", r"ValueCow::.*::take$", r"Engine::.*::add_filter$", r"EngineBoxFn"],
     select={INSTR: {"Apply", "EmitWith"}, EXPR: {"Call"}},
     rules=[],
     observe=["filter arguments, Renderer::to_string output or error"])

prop("C07", "Includes resolve the named template, isolate scope and are depth limited",
     "`{% include \"t\" %}` renders the template the render's custom resolver gives for that name, or without one the engine's template of exactly that name, in place and with the current scope; with `with expr` the included template sees only that value as its context. Rendering continues right after the include. Nesting deeper than the configured limit is an error, so include cycles end, and no nesting within the limit is refused.",
     "for every set of templates, include graph, limit and resolver",
     "tests include one or two templates; cycles, limits at the boundary and scope isolation are claims over every include graph",
     ["src/render/core.rs", "src/render/mod.rs", "src/render/stack.rs", "src/lib.rs", "src/compile/parse.rs", "src/compile/mod.rs"],
     [("include machine and depth limit", "src/render/core.rs render"), ("template resolution", "src/render/core.rs get_template"), ("scope boundary", "src/render/stack.rs lookup_var"), ("limit setting", "src/lib.rs set_max_include_depth, src/render/mod.rs with_max_include_depth")],
     units=[r"Engine::.*::(add_template|remove_template|get_template)$", r"::parse_string$", r"^render::to_", RR, r"RendererImpl::.*::get_template$", R1, CS, r"Stack::.*::(lookup_var|push|pop_scope|pop_boundary)$", r"Renderer::.*::(with_template_fn|with_max_include_depth|new)$", r"Engine::.*::(set_max_include_depth|with_syntax|get_template)$", PB, PT, PPRIM, r"compile::parse::Keyword::", r"types::ast::String::as_str", r"Renderer::.*::(with_serde|with_value|with_value_fn|to_string|to_writer)$"],
     select={INSTR: {"Include", "IncludeWith"}, STMT: {"Include"}, BLOCK: {"Include"}, KEYWORD: {"Include", "With"}, SSTATE: {"Scope", "Boundary", "ValueFn"}, TOKEN: {"Keyword", "String", "BeginBlock"}},
     rules=[],
     observe=["Renderer::to_string output or error"])

prop("C08", "No failure is swallowed: a failing step fails the whole call",
     "When lexing, parsing, a lookup, a filter, a formatter, a custom resolver, serialisation or the writer fails, the compile or render call returns an error; it never returns success with partial or substituted output. After the first failure no later statement of the template is evaluated. The only failures that may be recovered are a name not found in one scope and found in an outer one, optional access, and a number that is not an integer but is a float.",
     "for every template, context and failing step",
     "tests check the error of single failing steps; that no path anywhere turns an error into success is a claim over every error path",
     ["src/render/core.rs", "src/render/stack.rs", "src/render/mod.rs", "src/compile/lex.rs", "src/compile/parse.rs", "src/filters/mod.rs", "src/fmt.rs", "src/value/ser"],
     [("error propagation", "every `?` and map_err between the failing step and the public call")],
     units=[r".*"], only="ok_for_err", over=("programs", "inputs", "fault_sequences"),
     rules=["buffered"],
     observe=["Result of compile and render calls"])

prop("C09", "Writer failures surface as that IO error; written bytes are the output",
     "Rendering to a writer passes it exactly the bytes rendering to a string would produce, in order. When the writer fails, rendering stops and returns an IO error carrying that very error as its source, not a format error; when rendering itself fails, that error is returned.",
     "for every template, writer and point at which a write fails",
     "tests use one failing writer at one point; the claim is over every write of every template",
     ["src/fmt.rs", "src/render/mod.rs", "src/error.rs"],
     [("writer adapter keeps the IO error", "src/fmt.rs Writer"), ("error selection", "src/render/mod.rs to_writer"), ("IO error kind and source", "src/error.rs From<io::Error>, source")],
     units=[r"fmt::Writer", r"fmt::Formatter", r"render::to_writer$", r"render::to_string$", r"Renderer::.*::(to_writer|to_string)$", r"^<error::Error as core::convert::From<core::io::error::Error>>::from$", r"^<error::Error as core::error::Error>::source$", R1, r"^fmt::Error::", r"^<fmt::Error", r"^error::Error::(format|enrich|with_template_name)$"],
     select={INSTR: {"Emit", "EmitRaw", "EmitWith"}}, over=("programs", "inputs", "fault_sequences"),
     errors=True,
     rules=["buffered"],
     observe=["bytes received by the writer, Error::source"])

prop("C10", "Errors name what failed, where it is in the source, and in which template",
     "Every syntax error, render error, filter error and format error points at the source text of the construct that failed, has the kind of the step that failed, and names the template it occurred in, the innermost include included, when that template has a name. A filter or formatter error keeps the message its author gave. Serialisation failures are reported as serialise errors and no kind of error is presented as another.",
     "for every failing template and context",
     "tests compare messages of some failures; that each of the error sites passes the right place, kind and name is a claim over every site and input",
     ["src/error.rs", "src/compile/lex.rs", "src/compile/parse.rs", "src/render", "src/filters/mod.rs", "src/lib.rs"],
     [("error constructors", "src/error.rs"), ("span computation", "src/types/span.rs combine, src/compile/lex.rs, src/compile/parse.rs, src/types/ast.rs"), ("template names", "src/render/core.rs render, src/lib.rs add_template")],
     units=[r".*"], errors=True, only="errors",
     rules=[],
     observe=["Error Display and Debug"])

prop("C11", "Pretty errors show the right line, column, text and underline",
     "The pretty form of an error shows the line and column, counted from 1, of the first character of the failing construct, the full text of that line, and an underline starting under that column and as wide as the construct. This holds for multi-line templates, tabs aside, and for wide and multi-byte characters. The compact form is a single line with kind and reason.",
     "for every source text and error position",
     "tests render errors on short ASCII templates; line and column arithmetic is a claim over every offset and every mix of character widths",
     ["src/error.rs"],
     [("offset to line and column", "src/error.rs to_ln_col"), ("pretty layout", "src/error.rs Pretty::build, fmt_with_reason"), ("compact form", "src/error.rs Display")],
     units=[r"^error::(to_ln_col|display_width)$", r"^error::Pretty::", r"^<error::Error as core::fmt::(Display|Debug)>::fmt$", r"^error::Error::", r"span::.*Index<types::span::Span> for str>::index", r"types::span::Span"],
     errors=True, over=("inputs",),
     rules=[],
     observe=["Error Display and Debug"])

prop("C12", "No template source, value or data makes compile or render panic",
     "Compiling any source with any syntax, and rendering any template compiled by the same engine with any value, context function, resolver or writer that does not itself panic, returns a result: it never panics, indexes out of bounds, slices inside a character, overflows arithmetic or hits an internal assertion.",
     "for every source text, syntax, value and engine state",
     "fuzzing and tests sample inputs; absence of a panic is a claim over every input",
     ["src/compile", "src/render", "src/filters", "src/fmt.rs", "src/error.rs", "src/types", "src/value"],
     [("guards before every slice, index, unwrap and assertion", "all of src")],
     units=[r".*"], only="panics", errors=True, over=("programs", "inputs", "configurations"),
     rules=[],
     observe=["process does not panic"])

prop("C13", "Stack depth does not grow with includes, data or source length",
     "Compiling and rendering use native stack bounded independently of how long the source is, how long lists, maps and strings are, and how deeply templates include each other: only the nesting depth of the constructs written in one template, or of one value, may be followed recursively.",
     "for every template, include graph and value",
     "a stack overflow needs inputs far larger than any test uses, and aborts the process",
     ["src/compile", "src/render", "src/filters", "src/value"],
     [("explicit include stack", "src/render/core.rs render"), ("explicit block stack", "src/compile/parse.rs parse_template"), ("iterative parsing of expressions", "src/compile/parse.rs parse_expr")],
     units=[], rules=["recursion"], level="other", over=("programs", "inputs"),
     observe=["process does not overflow its stack"])

prop("C14", "Rendering is a pure function of its inputs and safe to share",
     "Compiling and rendering the same source with the same engine configuration and data gives the same result every time, on any thread, whatever was compiled or rendered before; maps are always visited in key order. Rendering never changes the engine, the template or the caller's value. Engines and templates can be shared between threads.",
     "for every history of calls and every interleaving of threads",
     "tests render once on one thread; history and thread independence are claims over every call sequence and schedule",
     ["src/lib.rs", "src/render", "src/compile", "src/value"],
     [("no interior mutability or global state", "all types and statics"), ("shared references on the render path", "src/lib.rs, src/render/mod.rs"), ("ordered maps", "src/value/mod.rs")],
     units=[r"render::iter::LoopState::", r"^value::from::.*BTreeMap", r"^value::from::.*HashMap", r"^<value::Value as serde::ser::Serialize>", r"^<value::Value as core::iter"], rules=["purity", "autos"], level="other", over=("histories", "schedules", "programs"),
     observe=["output equality across calls and threads"])

prop("C15", "Integers keep their value through every conversion or are refused",
     "An integer given by a literal, a Rust value, serialised data or a filter argument reaches templates, filters and output with exactly its numeric value, or the operation returns an error; it never wraps, truncates or changes sign. Floats given as floats stay floats and integers stay integers, except that a decimal literal too large for a 64-bit integer becomes a float.",
     "for every integer of every supported width",
     "tests convert a few numbers; wrap-around needs specific extremes of specific types",
     ["src/value/from.rs", "src/value/ser", "src/filters/args.rs", "src/compile/parse.rs", "src/render/iter.rs", "src/fmt.rs"],
     [("checked conversions", "src/value/from.rs, src/value/ser/mod.rs, src/filters/args.rs"), ("checked literal arithmetic", "src/compile/parse.rs parse_literal_integer")],
     units=[r"LoopState::.*::lookup_loop$", r"::parse_access$", r"^value::ser::", r"^fmt::Formatter", r"FilterReturn", r"^<value::Value as serde", r"value::from::.*(u8|u16|u32|u64|i8|i16|i32|i64|f32|f64)> for", r"Serializer>::serialize_(u|i|f)\d+$", r"FilterArg for [uif](\d+|size)>", r"::parse_literal_(number|integer|float)$", r"^fmt::default$"],
     rules=[], over=("inputs",),
     observe=["rendered output, filter arguments, to_value result"])

prop("C16", "Serialised data becomes values by one fixed mapping",
     "Serialising Rust data gives: none and unit as none, some and newtypes as their content, structs and maps as maps with every field under its name, sequences, tuples and bytes as lists in order, a unit variant as its name, and any other variant as a one-entry map from its name to its content. Map keys that are strings, characters or integers become their text and every other key type is an error. No field, element or entry is lost, reordered or renamed.",
     "for every serialisable type and value",
     "tests serialise a few structs; the mapping is a claim over every shape in the data model",
     ["src/value/ser/mod.rs", "src/value/ser/map.rs", "src/value/ser/list.rs", "src/value/ser/variants.rs"],
     [("value serialiser", "src/value/ser/mod.rs"), ("map key serialiser", "src/value/ser/map.rs"), ("collection builders", "src/value/ser/list.rs, map.rs, variants.rs")],
     units=[r"value::ser::", r"^<value::Value as serde", r"Renderer::.*::with_serde$", r"^Template(Ref)?::.*::render$"], errors=False, over=("inputs",),
     rules=[],
     observe=["to_value result, rendered output"])

prop("C17", "Rust conversions build the value they describe",
     "Converting unit, bool, integers, floats, strings, options, vectors, arrays, maps, pairs and iterators into a value keeps every element, its order, its key and its type; later duplicate keys win; an absent option is none. Copying a value gives an equal value, and two values are equal exactly when they have the same type and contents.",
     "for every value of every supported Rust type",
     "tests convert a few values per type; keeping every element is a claim over every length and content",
     ["src/value/from.rs", "src/value/mod.rs", "src/value/cow.rs"],
     [("From and FromIterator implementations", "src/value/from.rs"), ("derived equality and clone", "src/value/mod.rs")],
     units=[r"^value::from::", r"^<value::Value as", r"value::cow::"], over=("inputs",),
     rules=[],
     observe=["Value"])

prop("C18", "The default formatter prints each type by its documented rule",
     "By default none prints nothing, booleans print `true` or `false`, integers and floats print as Rust displays them, and strings print unescaped; lists and maps are refused with an error and print nothing.",
     "for every value",
     "tests print a few values of each type; the rule is a claim over every value, including inside loops and after filters",
     ["src/fmt.rs", "src/lib.rs"],
     [("default formatter", "src/fmt.rs default"), ("default setting", "src/lib.rs with_syntax")],
     units=[r"^fmt::default$", r"^fmt::Error", r"^<fmt::Error", r"^<fmt::Formatter", r"Engine::.*::(with_syntax|new|set_default_formatter)$", r"^<Engine<'engine> as core::default::Default>::default$", R1, r"Compiler::pop_emit_expr$"],
     select={INSTR: {"Emit", "EmitWith", "ExprStart", "ExprStartLit"}},
     over=("inputs",), rules=[],
     observe=["Renderer::to_string output"])

prop("C19", "Delimiters split the source exactly as configured, and only they trim",
     "With any configured set of delimiters the source is split at the longest delimiter at the leftmost position: everything outside tags is raw output, everything inside comment tags is ignored, and a tag closed by the wrong delimiter or left open is a syntax error. A `-` right inside a delimiter removes exactly the whitespace between that tag and the adjacent text, on that side only, and no other whitespace is ever removed. An empty delimiter is refused with a panic when it is set.",
     "for every source and every delimiter set, including ones that are prefixes of each other",
     "tests use the default and a few custom syntaxes; overlap and trimming are claims over every source and delimiter set",
     ["src/compile/lex.rs", "src/compile/search", "src/types/syntax.rs", "src/lib.rs"],
     [("delimiter table", "src/types/syntax.rs SyntaxBuilder::build, Kind"), ("multi-pattern search", "src/compile/search"), ("tag state machine", "src/compile/lex.rs lex, lex_template, lex_block, lex_comment"), ("comment handling", "src/compile/parse.rs parse_template")],
     units=[r"compile::search::", r"types::syntax::", r"Lexer::.*::(lex|next|new|lex_template|lex_block|lex_comment|lex_whitespace)$", r"compile::lex::Token::", r"compile::lex::is_whitespace", r"Engine::.*::with_syntax$", PT],
     select={TOKEN: {"Raw", "BeginExpr", "EndExpr", "BeginBlock", "EndBlock", "BeginComment", "EndComment", "Whitespace"}},
     over=("programs", "configurations"), rules=[],
     observe=["Renderer::to_string output or syntax error"])

prop("C20", "Reserved words are exactly the documented keywords",
     "The words if, not, else, endif, for, in, endfor, with, as, endwith, include, true and false, in this exact spelling, are keywords wherever they stand alone in a tag and are never variable names; every other identifier, including ones that merely start with or contain a keyword, is a name. Each keyword introduces its own construct and no other.",
     "for every identifier and keyword position",
     "tests use each keyword once; the identifier/keyword split is a claim over every word",
     ["src/compile/lex.rs", "src/compile/parse.rs"],
     [("keyword table", "src/compile/parse.rs Keyword"), ("identifier lexing", "src/compile/lex.rs lex_ident_or_keyword, is_ident, is_ident_start"), ("keyword dispatch", "src/compile/parse.rs parse_block, parse_if_cond, expect_keyword")],
     units=[r"compile::parse::Keyword::", r"<compile::parse::Keyword", r"::(lex_ident_or_keyword|lex_while|lex_block)$", r"compile::lex::is_ident", r"::(expect_keyword|parse_keyword|is_next_keyword|parse_block|parse_if_cond|parse_literal_bool|parse_ident)$"],
     over=("programs",), rules=[],
     observe=["compile result"])

prop("C21", "String literals denote exactly the text written, escapes resolved",
     "A string literal ends at the first quote not preceded by an active backslash and denotes the text between the quotes with `\\n`, `\\r`, `\\t`, `\\\\` and `\\\"` replaced by the character they name and everything else kept, including non-ASCII text and delimiters. Any other escape, or a line break or end of source before the closing quote, is a syntax error.",
     "for every literal",
     "tests use a few literals; sequences of backslashes and quotes are a claim over every string",
     ["src/compile/lex.rs", "src/compile/parse.rs"],
     [("literal extent", "src/compile/lex.rs lex_string"), ("escape resolution", "src/compile/parse.rs parse_string")],
     units=[r"::(lex_string|parse_string|parse_literal_string)$", r"::lex_block$", r"::parse_block$", r"::parse_base_expr$", r"types::ast::String::as_str", r"compile::lex::Token"],
     select={TOKEN: {"String"}, KEYWORD: {"Include"}}, over=("programs",), rules=[],
     observe=["rendered output or syntax error"])

prop("C22", "Number literals denote the written number or are refused",
     "A literal in base 2, 8, 10 or 16 with optional sign and `_` separators denotes exactly that integer; decimal forms with fraction or exponent denote that float with its sign. A digit not valid in its base, or an integer outside 64 bits in a prefixed base, is a syntax error, and the extent of a number never swallows or splits neighbouring tokens. List indexes in paths are plain decimal numbers, refused when out of range.",
     "for every literal in every base and sign",
     "tests use a few literals per base; digits, bounds and signs are claims over every literal",
     ["src/compile/lex.rs", "src/compile/parse.rs"],
     [("number extent", "src/compile/lex.rs lex_number, lex_index, is_number, is_index"), ("value", "src/compile/parse.rs parse_literal_number, parse_literal_integer, parse_literal_float"), ("index value", "src/compile/parse.rs parse_access")],
     units=[r"::(lex_number|lex_index|lex_while|lex_block|parse_literal_number|parse_literal_integer|parse_literal_float|parse_access|parse_base_expr)$", r"compile::lex::is_(number|index)$"],
     select={TOKEN: {"Number", "Index", "Plus", "Minus"}}, over=("programs",), rules=[],
     observe=["rendered output or syntax error"])

prop("C23", "Blocks nest properly or compilation fails",
     "A template compiles only when every `if`, `for` and `with` is closed by its own end block in proper nesting, `else` and `else if` stand only inside an `if` and never after its `else`, and every tag contains one complete construct and nothing else. Everything inside a block belongs to that block, in order, and an error names the first offending block.",
     "for every sequence of tags",
     "tests misplace a few blocks; nesting is a claim over every sequence of blocks",
     ["src/compile/parse.rs"],
     [("block and scope stacks", "src/compile/parse.rs parse_template"), ("block parsing", "src/compile/parse.rs parse_block"), ("token expectations", "src/compile/parse.rs expect, parse_keyword, next, peek")],
     units=[PT, PB, PPRIM, r"::parse_if_cond$", r"::parse_loop_vars$", r"types::ast::Scope::new", r"^compile::lex::Lexer::.*::(lex|lex_comment|lex_template|next)$", r"compile::lex::Token::", r"compile::parse::Keyword::"],
     over=("programs",), rules=[], errors=False,
     observe=["compile result"])

prop("C24", "The engine's registry holds exactly what was successfully added",
     "Adding a template, filter or formatter makes it available under exactly that name and replaces a previous one of that name, reporting what kind of function was replaced; removing makes it unavailable and tells whether it was there; nothing else changes an entry. A template that fails to compile changes nothing: a previous template of that name stays usable.",
     "for every sequence of additions, removals and failures",
     "tests make one or two additions; registry state is a claim over every history",
     ["src/lib.rs"],
     [("registry operations", "src/lib.rs Engine")],
     units=[r"^Engine::", r"^<Engine", r"EngineBoxFn", r"EngineFn", r"^TemplateRef::.*source", r"^Template::.*source", r"^compile::template$", r"^<TemplateRef"],
     over=("histories",), rules=[],
     observe=["Engine methods' results, rendered output"])

prop("C25", "Compiled programs are well formed for the interpreter",
     "In every compiled template each jump lands on an instruction boundary inside the program (or its end), every expression started is consumed exactly once before the next one starts, and each loop or `with` entered is left exactly once on every path through the program. The interpreter therefore never meets a missing expression or an unbalanced scope.",
     "for every template",
     "tests run a few programs; well-formedness is a claim over every program the compiler can produce",
     ["src/compile/mod.rs", "src/render/core.rs", "src/types/program.rs"],
     [("code generation", "src/compile/mod.rs Compiler"), ("interpretation", "src/render/core.rs render_one")],
     units=[r"^compile::Compiler::", R1], over=("programs",), rules=[],
     observe=["no panic, correct output"])

prop("C26", "A path addresses exactly the member it names",
     "`a.b.0.c` evaluates to the value reached by following each member in order: map entries by exact key, list items by zero-based position. The result is that very element, whatever its depth and whether the container is the caller's data or computed, never a sibling, a default or a partial path. The custom value function receives the whole path, every member with its operator, in order.",
     "for every path and value",
     "tests follow short paths; the addressed element is a claim over every path and shape",
     ["src/render/value.rs", "src/render/iter.rs", "src/render/stack.rs", "src/types/ast.rs", "src/compile/parse.rs"],
     [("member lookup", "src/render/value.rs lookup, lookup_path"), ("variable resolution", "src/render/stack.rs lookup_var, src/render/iter.rs lookup_var"), ("path parsing", "src/compile/parse.rs parse_var, parse_access")],
     units=[r"render::value::lookup", r"LoopState::.*::(lookup_var|lookup_loop)$", r"Stack::.*::(lookup_var|new|with_value_fn)$", r"types::ast::Var::", r"::(parse_var|parse_access)$", r"span::.*Index<types::span::Span> for str>::index", r"^<value::cow::ValueCow", r"::(lex_index|lex_while)$", r"compile::lex::is_index$", r"::lex_ident_or_keyword$"],
     over=("programs", "inputs"), rules=[],
     observe=["rendered output, arguments of the value function"])

prop("C27", "Expressions parse by the documented grammar, filters left to right",
     "An expression is a literal or a path followed by any number of `| name` or `| name: arg, ...` applied left to right, where arguments are literals or paths; a leading sign belongs to a number. Every well-formed expression compiles to exactly its steps in order, whitespace between tokens never matters, and anything else is a syntax error rather than ignored text.",
     "for every expression",
     "tests parse a few expressions; the grammar is a claim over every token sequence",
     ["src/compile/parse.rs", "src/compile/lex.rs", "src/compile/mod.rs"],
     [("expression parser", "src/compile/parse.rs parse_expr, parse_base_expr, parse_args"), ("token classification", "src/compile/lex.rs lex_block"), ("expression compilation", "src/compile/mod.rs compile_expr, compile_base_expr")],
     units=[r"::(parse_expr|parse_base_expr|parse_args|parse_var|parse_access)$", PPRIM, CE, r"Compiler::push$", r"Lexer::.*::(lex_block|lex_question_dot|lex_whitespace|next|lex|lex_while)$", r"compile::lex::is_", r"Token::is_whitespace"],
     over=("programs",),
     observe=["compile result, rendered output"])

prop("C28", "Every way to render the same thing gives the same result",
     "Rendering through a registered template or a separately compiled one, to a string or to a writer, and from serialisable data or from the equivalent value, gives the same text or the same failure; each uses the engine's formatter, functions, templates and limits. A template reports the source it was compiled from unchanged.",
     "for every template, data and entry point",
     "tests use one entry point at a time; agreement is a claim over all pairs of entry points",
     ["src/lib.rs", "src/render/mod.rs"],
     [("entry points", "src/lib.rs Template, TemplateRef"), ("renderer construction and finish", "src/render/mod.rs Renderer")],
     units=[r"^Template::", r"^TemplateRef::", r"Renderer::", r"^render::to_", r"^Engine::.*::(compile|add_template|template|get_template)$", r"^compile::template$", r"Compiler::compile_template$", r"^value::ser::to_value$", r"fmt::Formatter", r"fmt::Writer", r"^error::Error::"],
     over=("programs", "inputs"), rules=["buffered"],
     observe=["rendered output across entry points"])

prop("C29", "Tokens cover the source in order and lexing always advances",
     "Reading a template consumes the source strictly left to right: every byte belongs to exactly one token, trimmed whitespace and skipped whitespace aside, no token overlaps or repeats another, every token boundary falls between characters, and each step makes progress, so compiling any source ends.",
     "for every source and syntax",
     "tests lex short sources; tiling and termination are claims over every source",
     ["src/compile/lex.rs", "src/compile/search"],
     [("cursor updates", "src/compile/lex.rs lex, lex_template, lex_block, lex_comment, lex_while, lex_string"), ("search positions", "src/compile/search")],
     units=[r"^compile::lex::Lexer::", r"compile::lex::is_", r"compile::search::Searcher::", r"AhoCorasick::find_at", r"::Match::", r"span::Span"],
     over=("programs",), rules=[],
     observe=["compile ends; rendered raw text equals source text"])


prop("C30", "The value! macro builds exactly the map written",
     "`value! { .. }` builds a map holding every entry written, under its key and nothing else: `None` is none, brackets build a list of the elements in order, braces build a map, every other expression is evaluated once, in order, and becomes what serialising it gives; a later entry with the same key wins, trailing commas change nothing, and nesting works to any depth.",
     "for every invocation of the macro by the documented syntax",
     "tests expand the macro a few times; each of its rules recursively calls the others, so what one rule does is a claim over every nesting",
     ["src/macros.rs", "src/value/ser/mod.rs"],
     [("macro rules of value!, _value!, _vec!", "src/macros.rs"), ("to_value", "src/value/ser/mod.rs")],
     units=[r"^value::ser::to_value$"], over=("programs",), rules=["macro"],
     technique="expansion witnesses (one per macro rule and nesting of rules) type-checked against /repo, their MIR abstracted to decision tables and compared with the confirmed reference",
     observe=["the Value the macro evaluates to"])

prop("C31", "Public data types copy, compare and print by their content",
     "A copy of a value, a syntax, a path member or an error reason equals its original; two of them are equal exactly when their kinds and contents are (so hashing agrees with equality), a float compares by IEEE rules, and printing them for debugging never fails, loops or hides their content.",
     "for every pair of values of these types",
     "tests compare a few values; agreement between copying, equality and hashing is a claim over every pair",
     ["src/lib.rs", "src/value/mod.rs", "src/types/syntax.rs", "src/fmt.rs"],
     [("derived and hand-written Clone, PartialEq, Hash, Debug", "src/lib.rs ValueMember, ValueAccess, ValueAccessOp; src/value/mod.rs Value; src/types/syntax.rs Syntax, Kind")],
     units=[r"^<(Value(Member|Access|AccessOp)|EngineFn|value::Value|types::syntax::(Syntax|SyntaxBuilder|Kind)|fmt::Error|Engine|Template|TemplateRef|EngineBoxFn|error::ErrorKind|types::program::Template)(<.*>)? as core::(clone|cmp|hash|fmt|default)::"],
     over=("inputs",), rules=[],
     observe=["equality, clones, hashes and debug output of public types"])
