"""Level, notes and assumptions per property, for MANIFEST.json and the evidence files.

level "proof": the statement is decided by obligations on the functions it is about, all of them discharged in this run
(a run in which a unit could not be decided falls back to "exploration" in its evidence). level "exploration": the
functions the property depends on are under contract as well, but the step from the contracts to rendered output goes
through generated code or a library, and is only explored, with the executable contracts."""

COMMON_TRUST = [
    "CPython 3.12 and its standard library (ast, compile, tokenize, html.parser, xml.dom), by the models in pyvc/models.py and the contract files",
    "pyvc: the translation of Python source into verification conditions (pyvc/vm.py, sym.py, models.py; tested by mutation, tools/mutate.py)",
    "z3 4.8.12 / z3-solver, with cvc5 as second back end for what z3 leaves unknown",
]
COMMON_ASSUME = [
    "partial correctness: loops and recursions under contract are assumed to end; MemoryError, RecursionError, KeyboardInterrupt and signals are not considered",
    "arguments of a function under contract do not alias each other or module state unless the contract says so; attribute access on repository objects runs no code from outside",
    "callees under contract are used by their contract; recursion over a tree by the contract being proved (induction over the height)",
    "a loop over a sequence of unknown length changes only what its loop contract lists and what the body of the loop, executed on an arbitrary element, was seen to change; a change outside of the list is an error of the unit, not a pass",
    "generators are evaluated eagerly",
    "homomorphisms over characters (the escaped form of a text, what is shown of a text) and the like are uninterpreted functions with the equations of their definition at concatenation and at literal text",
    "a marker made by object() is never among the values of a program",
    "Python integers are unbounded; floating point numbers (clock, modification times) are real numbers",
]
JS_TRUST = ["the semantics of JavaScript as in pyvc/js.py (ES5 and common later syntax)", "TypeScript's parser, which reads the JavaScript source", "node, for the bounded runs"]
MIXED = "contracts on the functions this depends on are discharged for all inputs; that generated code run by CPython adds up to the statement is explored with executable contracts on generated inputs (bounded). "
TECH = "contract-based deductive verification: verification conditions from the current source by pyvc (sidecar contracts, loop invariants, ghost folds), discharged by z3/cvc5"
BOUNDED = "; bounded executable contracts on the real code as stand-in and for replay"

INFO = {
    "C01": dict(note=MIXED + "Proved: escape, Text.escaped, constant attributes, the CDATA state, escaping once in generated nodes and after coalescing, both buffers, attribute mappings. Bounded: the composition through whole templates.",
                technique=TECH + ", CBMC for the C buffer" + BOUNDED, trusted=["CBMC 6.11"]),
    "C02": dict(note=MIXED + "Proved: parser callbacks, IR generation, merging, flattening, language nodes, string and output coalescing keep every piece once and in order. Bounded: whole templates, the minidom doctype."),
    "C03": dict(level="proof", note="The split is decided by contracts on handle_text_node, _strip_dollars_fast, the text collection of the parser, slicing and the Python expression scanner, for texts of any length; tokenize and re by their models. Whole templates are also run, bounded."),
    "C04": dict(level="proof", note="The end of an expression is decided by contracts on the scanner functions over an arbitrary token sequence; that tokenize gives the tokens of Python is trusted. An oracle made from compile() runs on all short texts and random ones, bounded."),
    "C05": dict(note=MIXED + "Proved: the nesting of control nodes, the statement each node generates, constant conditions, buffers of function bodies, coalescing. Bounded: evaluation traces of random templates."),
    "C06": dict(note=MIXED + "Proved: free variables of every kind of syntax against a scope semantics, the generated registration and binding code, bind, the builtins and the context. Bounded: all pairs of bindings, random programs against the symtable module."),
    "C07": dict(level="proof", note="Python buffer: contracts for any number of values. C buffer: CBMC on _buffer.c with a loop contract put in front of its loop on every run (any number of values), against assumed contracts of the C API in cbuf/include/Python.h; if the loop is rewritten into a form the contract cannot be put on, only runs of up to three values remain and the unit counts as not proved. Both are also compared by running them, bounded.",
                technique=TECH + "; CBMC code contracts for the C buffer" + BOUNDED, trusted=["CBMC 6.11 (goto-cc, goto-instrument --apply-loop-contracts)"]),
    "C08": dict(level="proof", note="Contracts on output_boolean_attr of both buffers, output_attrs, attribute language nodes and the IR attributes; the generated calls run as CPython runs them. Whole templates are also run, bounded.",
                technique=TECH + "; CBMC code contracts for the C buffer" + BOUNDED, trusted=["CBMC 6.11 (goto-cc, goto-instrument --apply-loop-contracts)"]),
    "C09": dict(note=MIXED + "Proved: extends accepts what it should, blocks and definitions are registered through the first-wins binder before the base template's, bind, load of the base. Bounded: chains of templates."),
    "C10": dict(level="proof", note="Contracts on import_defs (for an arbitrary name and arbitrary contexts), ImportedTemplate attribute access, the generated import and the generated program. That Template.bind changes only the mapping it is given follows from the shape of the generated program (unit root.PyRootNode) and is trusted in import_defs. Whole templates are also run, bounded."),
    "C11": dict(note=MIXED + "Proved: make_template_context copies and does not write to its arguments, builtins are made once and not written, render_to_buffer, import_defs. Bounded: histories of renderings."),
    "C12": dict(level="proof", note="Contracts on resolve, add_path, set_reload, _maybe_purge_cache (for an arbitrary cached name) and load, with the invariant that a cache entry holds the template of a file and its modification time; a file system that does not change during one call. Histories on scratch files are also run, bounded."),
    "C13": dict(note=MIXED + "Proved: the functions that find each kind of error reject exactly it, at its line. Bounded: that nothing else escapes from html.parser, tokenize, ast.parse and minidom for malformed templates, and the traceback."),
    "C14": dict(level="proof", note="Contracts on position arithmetic (with the composition lemma), slices, the positions the parser records, attribute value positions, and on moving syntax trees to their place. The position html.parser reports for a tag is trusted. Whole templates are also run, bounded."),
    "C15": dict(note=MIXED + "Proved: which text is translatable, the partition of white space, gettext of exactly the text. Bounded: identity translation of random templates."),
    "C16": dict(level="proof", note="Contracts on the functions of javascript.js, read with TypeScript's parser on every run, against the semantics of JavaScript in pyvc/js.py. The runtime is also run by node and compared with the Python runtime, bounded.", trusted=JS_TRUST),
    "C17": dict(note=MIXED + "Proved: render, handle_exception, reraise and the traceback functions for chains of any length. Bounded: real tracebacks of failing templates."),
    "C18": dict(level="proof", note="Contracts on every function of the Pyramid integration, with pkg_resources, pyramid.settings and the configurator by assumed contracts. Configurations are also run, bounded, with stand-ins for Pyramid where it is not installed."),
    "C19": dict(note=MIXED + "Proved: the iteration over the tree, each message once with its text and arguments. That lingua finds the gettext calls of an expression is trusted and explored, bounded.", trusted=["lingua's Python message parser"]),
    "C20": dict(note=MIXED + "Proved: the JavaScript nodes, the generated program, scope analysis, the expression scanner and lexer loop, the runtime. Bounded: Python and JavaScript renderings of the same random templates compared, with node.",
                trusted=JS_TRUST + ["slimit's parser, printer and scope visitors"]),
}


def get(prop):
    d = dict(level="exploration", note="", assumptions=[], trusted=[], technique=TECH + BOUNDED)
    d.update(INFO.get(prop, {}))
    d["assumptions"] = list(COMMON_ASSUME) + list(d["assumptions"])
    d["trusted"] = COMMON_TRUST + list(d["trusted"])
    return d
