"""Texts of MANIFEST.json that no single property owns, and the properties no check claims."""
TECHNIQUE = "abstract interpretation of compiler MIR into decision tables, compared function by function with a confirmed reference, plus syntax/type-level rules"
NOTE = ("Every function that owns the property is analysed on all its paths (loops summarised by their step relation, callees opaque or inlined); "
        "any case whose result, effect or next loop state differs from the confirmed reference is reported. Trusts the reference (the reviewed and "
        "repaired tree), the models of standard library functions, and rustc's MIR.")
NOTES = "Static analysis only: no check runs code of /repo. Each check rebuilds the MIR dump from /repo's working tree (nightly rustc driver in driver/)."


def na(id, title, statement, text, why, files, mech, reason, over=("programs", "inputs")):
    return dict(id=id, title=title, statement=statement, quantifier={"over": list(over), "text": text}, why=why, files=files, mech=mech, observe=[], reason=reason)


NA_PROPS = [
    na("N01", "Rendering time is linear in the work the template asks for",
       "Compiling takes time linear in the source and rendering takes time proportional to the statements executed and bytes written, whatever the template, data or delimiters.",
       "for every template and value", "benchmarks time a few templates", ["src/compile", "src/render"], [("single-pass lexer and interpreter", "src/compile/lex.rs, src/render/core.rs")],
       "Cost of a run depends on run-time quantities (iterator lengths, map sizes, allocator, user filters) that no static rule in reach bounds; a timing run would be a dynamic test."),
    na("N02", "User filters and formatters behave as their author intended",
       "A filter or formatter supplied by the user is called with correct data and does what its documentation says.",
       "for every user function", "user code is not part of the repository", ["src/filters/mod.rs"], [("function registry", "src/lib.rs")],
       "The code of user functions is not in /repo; what the library owes them (their exact arguments, once) is claimed by C05 and C06."),
]
