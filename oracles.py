"""How each property is decided: the reference it is compared with (for DESIGN.md)."""
ORACLES = {
"C01": "Totality. The harness only converts; the assertion is the absence of panics, failed debug assertions, arithmetic overflow, out-of-bounds accesses, reads of memory that was never written, unbounded recursion (20 000 frames) and of runs over 30 million instructions, all of which are terminal states of the executor.",
"C02": "The tree's text is compared with the concatenation of the tokens the macro engine hands to the parser (obtained by a second run of the lexer), minus what the parser drops by design; each typed view (CmdItem, EnvItem, FormulaItem, LRItem) is compared with a walk over the raw children written in the harness.",
"C03": "A reference tokenizer written from TeX's surface rules (harness/src/props/lexer.rs), independent of logos; compared token by token (kind and extent).",
"C04": "The stream through MacroEngine is compared with the plain lexer's stream; for the page boundary, the expansion of a snippet at distance d is compared with its expansion at distance 0.",
"C05": "The harness knows the body and the arguments it wrote, substitutes them itself and compares the two conversions byte by byte; for redefinitions it keeps its own table of definitions in force.",
"C06": "The harness writes the selected branch out and compares the two conversions; \\iftypst bodies are compared with the bytes between the marks.",
"C07": "A reference matcher by recursive enumeration of the choices of the (symbolic) pattern; acceptance and acceptance-of-a-prefix are compared for every prefix.",
"C08": "The error text must be exactly `error: unknown command: \\X` (or environment) for the symbolic X, under the path condition that DEFAULT_SPEC does not hold X.",
"C09": "A reference reader of Typst's bracket structure (escapes, strings, math and content brackets) runs over the symbolic output and must end at depth zero with matching kinds. That the input is closed is decided on the real tree.",
"C10": "A reference function from characters to their Typst escapes, plus the rule for blanks and line ends.",
"C11": "The same for formulas: every character its own item.",
"C12": "convert(A), convert(B), convert(A): first and third must agree, byte for byte, errors included; B is symbolic and may fail half-way.",
"C13": "A model map (three optional values) copied at each snapshot; after every operation all keys are compared, and every return value.",
"C14": "Each kind of entry has its meaning written down next to its JSON form; the compiled, the stored-and-loaded and the re-serialised entry are compared field by field with it, and one conversion under the original with one under the loaded specification.",
"C16": "The harness builds items of known extent, selects the arguments by the shape's definition (its own small matcher per shape) and writes the expected call.",
"C17": "The harness knows the last item's image and writes `base _(script)` itself.",
"C18": "convert(A P) = convert(A) convert(P); that A is complete is decided on the real tree of A alone.",
"C19": "The document is converted without the label and with a marker word where the label must land; replacing the marker by `<label>` must give the conversion with the label.",
"C20": "A table of the documented combinations; default name by replacing what follows the last `.` of the file name.",
"C23": "The two spellings are converted and compared; that the body is complete and free of marks is decided on its own tree.",
"C24": "The document with a symbolic comment and the one with an empty comment must agree, including the error text.",
"C28": "A model of lists (stack of open lists, pending blank, indentation) writes the expected lines operation by operation.",
"C29": "A model of tables (columns, rules, open cell) writes the expected table part by part.",
"C30": "Expected call written from the chosen options, model, colour and text.",
"C31": "Environments: expected output per kind from the caller's alias and arguments. Exclusiveness: every name of the built-in specification must be refused by name under a specification without it.",
"C32": "The expected call is computed from the entry of DEFAULT_SPEC itself (alias, shape); the index into the table is symbolic, so all entries are covered.",
"C34": "The library called directly with the specification loaded from the same bytes; UTF-8 by its definition in RFC 3629, written in the harness; the meaning of an entry as in C14.",
"C33": "A model with a stack of open constructs writes the expected output step by step, including what a separator or break means on top of the stack.",
"C35": "The library called directly on the same text; the handlers read off the built-in specification by their own filter; contents of both files before and after.",
"C36": "The conversions of delimiter and content, each converted alone, written into `lr(` and `)`; runs of blanks count as one, those next to parentheses and semicolons not at all.",
}
