"""The properties, what decides each of them, and within which bounds.

gen.py writes properties.jsonl and MANIFEST.json from this table."""

ASSUMPTIONS = [
    "the LLVM IR rustc emits for the harness (opt-level 2, LTO, overflow checks and debug assertions on, x86-64) means what the crates mean; "
    "every run replays solved inputs of explored paths against an unoptimised native build and compares all observed outputs",
    "in the encoding rowan does not intern equal nodes and rustc-hash hashes a byte string by its length (/verif/vendor), std's keyed hash is one number for all keys; the replays use the real crates",
    "memory allocation succeeds",
    "one thread",
]

DESCR = {}


def describe(entry, args):
    return DESCR.get(entry, "")


L = "crates/mitex-lexer/src/"
PA = "crates/mitex-parser/src/"
MX = "crates/mitex/src/"


def prop(title, statement, over, qtext, why, files, mech, observe, quick, thorough, bounds, outside, assumptions=(), time=500, thorough_time=3000, hook=None, technique=None, note=None):
    return dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe, quick=quick,
                thorough=thorough, bounds=bounds, outside=outside, assumptions=list(assumptions), time=time, thorough_time=thorough_time,
                hook=hook, technique=technique, note=note)


CTXS = range(14)
PROPS = {}
PROPS["C01"] = prop(
    "Every input is converted or refused with a message",
    "Converting any UTF-8 text, as math or as text, ends with either an output or an error message: never a panic, never an endless run. "
    "Documents whose macros call themselves are excluded.",
    ["inputs"], "all texts, both modes",
    "The tests convert a few dozen well-formed snippets; almost no malformed or half-written input is among them, while an editor calls the converter on exactly those.",
    [MX + "lib.rs", MX + "converter.rs", PA + "parser.rs", PA + "arg_match.rs", L + "token.rs", L + "stream.rs", L + "macro_engine.rs"],
    [("conversion of every tree shape", MX + "converter.rs TypstConverter::convert"), ("error recovery of the parser", PA + "parser.rs Parser"),
     ("macro expansion on incomplete input", L + "macro_engine.rs MacroEngine"), ("hand-written token sub-lexers", L + "token.rs lex_command_name, lex_begin_end")],
    ["mitex::convert_math", "mitex::convert_text"],
    [("h_any", n, m) for n in (1, 2, 3) for m in (0, 1)] + [("h_tok", 2, m, c) for m in (0, 1) for c in CTXS] + [("h_tok", 3, 1, 0)]
    + [("h_defs", 2, m, f) for m in (0, 1) for f in range(4)] + [("h_argtext", 2, m, p) for m in (0, 1) for p in range(28)] + [("h_deep", 1, p, 2 * (p % 2), 1 + p % 4) for p in range(42)],
    [("h_argtext", 3, m, p) for m in (0, 1) for p in range(28)] + [("h_deep", 1, p, w, o) for p in range(42) for w in (0, 2) for o in range(5)] + [("h_deep", 2, p, 0, 0) for p in range(42)] + [("h_any", 4, 0), ("h_any", 4, 1)] + [("h_tok", 3, m, c) for m in (0, 1) for c in (0, 1, 2, 4, 5, 6, 7, 9, 11)],
    "any 1 to 3 bytes of valid UTF-8 (thorough: 4) in both modes; any 2 tokens of a 92-token alphabet in both modes inside each of 14 contexts, any 3 at top level "
    "(thorough: 3 in 9 contexts); one token in each of 42 constructs inside another one (thorough: all pairs, or two tokens in one); any 2 bytes (thorough: 3) in 28 places whose text is read by hand; definitions with 5 argument counts, bodies of any 2 out of 10 pieces and 5 calls; at most 30 million IR instructions per path",
    "longer inputs, macros that call themselves (also through an argument), stack exhaustion by deep nesting")
PROPS["C02"] = prop(
    "The syntax tree covers the whole input and its views agree with it",
    "For every input, the text of the syntax tree is the text of the tokens in order, so nothing a user wrote is lost or duplicated before conversion. "
    "The typed views of the tree (commands, environments, formulas, delimited groups) report exactly the children the tree has.",
    ["inputs"], "all texts",
    "Parser tests are snapshots of chosen snippets; none states that an arbitrary, possibly malformed, input is fully covered by its tree.",
    [PA + "parser.rs", PA + "syntax.rs", L + "stream.rs"],
    [("every branch must consume each token exactly once", PA + "parser.rs Parser::eat, Parser::trivia and callers"), ("typed views", PA + "syntax.rs CmdItem, EnvItem, FormulaItem, LRItem")],
    ["mitex_parser::parse", "mitex_parser::syntax"],
    [("h_tree", n) for n in (1, 2, 3)] + [("h_tree_tok", 2, c) for c in range(11)],
    [("h_tree", 4), ("h_tree_tok", 3, 0), ("h_tree_tok", 3, 1), ("h_tree_tok", 3, 5)],
    "any 1 to 3 bytes of valid UTF-8 (thorough: 4); any 2 tokens of a 92-token alphabet inside each of 11 contexts (thorough: 3 in three of them)",
    "longer inputs; blanks between a command and its arguments and the outermost \\iffalse/\\iftypst marks, which the parser drops by design")
PROPS["C03"] = prop(
    "Tokens tile the input and have the documented kinds",
    "For every input, the lexer's tokens follow each other without gap or overlap, cover the input to its end, and each is classified by TeX's surface rules: "
    "names, starred names the specification knows, conditionals, formula marks, comments, line breaks, blanks, environment clauses.",
    ["inputs"], "all texts",
    "The lexer tests look at a handful of strings; token boundaries depend on every following character, including non-ASCII blanks and `*` after names.",
    [L + "token.rs", L + "lib.rs", L + "stream.rs"],
    [("token regexes", L + "token.rs enum Token"), ("command names", L + "token.rs lex_command_name"), ("environment clauses", L + "token.rs lex_begin_end")],
    ["mitex_lexer::Lexer::eat"],
    [("h_lex", n) for n in (1, 2, 3)] + [("h_lex_cmd", n, k) for n, k in ((1, 1), (2, 1), (3, 1))] + [("h_lex_env", a, n, z, e) for a, n, z in ((0, 1, 1), (1, 1, 1), (2, 2, 0), (0, 2, 2)) for e in (0, 1)]
    + [("h_lex_kw",), ("h_lex_tok", 2)] + [("h_lex_clause", n, p, e) for n, p, e in ((3, 0, 0), (3, 1, 0), (2, 2, 0), (2, 3, 0), (3, 4, 0), (2, 0, 1), (2, 2, 1), (2, 4, 1))],
    [("h_lex", 4), ("h_lex_cmd", 4, 1), ("h_lex_cmd", 2, 2), ("h_lex_env", 3, 2, 1, 0), ("h_lex_env", 2, 3, 2, 1), ("h_lex_tok", 3)] + [("h_lex_clause", 3, p, e) for p in range(5) for e in (0, 1)],
    "any 1 to 3 bytes of valid UTF-8 (thorough: 4), alone and in five places of an environment clause; names of up to 3 symbolic name characters; \\begin/\\end with up to 2 symbolic bytes before, in and after the braces; pairs of 92 tokens",
    "longer inputs; the reference tokenizer is our reading of TeX's and mitex's surface rules")
PROPS["C04"] = prop(
    "Text without macros passes the macro expander unchanged",
    "An input that neither defines macros nor uses conditionals leaves the macro expander token by token as the lexer produced it, and converts the same without the expander. "
    "How far a definition, call or conditional is from the start of the document never changes its expansion.",
    ["inputs", "histories"], "all texts without definitions and conditionals; all distances from the start around buffer boundaries",
    "The token buffer is filled page by page; the tests' inputs fit in the first page, so nothing crosses a boundary.",
    [L + "macro_engine.rs", L + "stream.rs"],
    [("page filling", L + "macro_engine.rs MacroEngine::do_bump"), ("the two peek buffers", L + "stream.rs StreamContext")],
    ["mitex_lexer::Lexer with MacroEngine", "mitex_parser::parse, parse_without_macro", "mitex::convert_math, convert_math_no_macro"],
    [("h_pass_bytes", n) for n in (1, 2, 3)] + [("h_pass", 2, 0, 0), ("h_pass", 1, 160, 20)] + [("h_page", w, p, n) for w in range(10) for p, n in ((150, 40), (310, 50))] + [("h_pass_conv", 2, c, a) for c in (0, 1, 2, 3, 6, 7, 11, 12) for a in (0, 1) if a or c in (0, 3, 7)],
    [("h_pass_bytes", 4), ("h_pass", 3, 0, 0), ("h_pass", 2, 164, 10)] + [("h_page", w, p, 100) for w in range(10) for p in range(0, 800, 100)],
    "any 1 to 3 bytes (thorough: 4); pairs of 92 tokens; one token at each of 20 distances and ten definition/call/conditional snippets with a symbolic letter at each of 90 distances around the first two page boundaries (thorough: at each of 800 distances); trees and outputs of 2 tokens or characters in 8 contexts with and without the expander",
    "longer inputs")
PROPS["C05"] = prop(
    "A macro call converts like its expansion written out by hand",
    "Converting a document that defines a command or environment macro and uses it gives the same output as converting the document in which the use is replaced by the body with the arguments substituted. "
    "This holds for every way to define the macro, and for arguments given in braces, as single characters or as single commands. The definition in force at a call is the one TeX's rules select: "
    "\\newcommand refuses a name the document has defined, \\renewcommand one that neither the document nor the specification knows, \\providecommand keeps what is there, \\DeclareRobustCommand replaces it. A call that lacks an argument or its environment's end is refused, its text does not vanish.",
    ["programs", "inputs"], "all definitions, bodies, arguments and surroundings",
    "Three or four macro tests exist, each with one body and braced arguments.",
    [L + "macro_engine.rs"],
    [("argument reading", L + "macro_engine.rs MacroEngine::read_macro_args"), ("substitution", L + "macro_engine.rs MacroEngine::expand_tokens"),
     ("definition reading", L + "macro_engine.rs MacroEngine::identify_macro_update, process_macro_def")],
    ["mitex::convert_math", "mitex::convert_text"],
    [("h_expand", 0, 2, 0, 0), ("h_expand", 0, 2, 1, 3), ("h_expand", 1, 2, 1, 0), ("h_expand", 1, 2, 0, 1), ("h_expand", 1, 1, 1, 5), ("h_expand", 1, 1, 1, 2), ("h_expand", 1, 1, 0, 4), ("h_expand", 2, 1, 1, 0), ("h_expand", 2, 2, 0, 8), ("h_expand", 3, 1, 1, 8), ("h_expand", 1, 1, 1, 6), ("h_expand", 2, 1, 0, 14)]
    + [("h_calls", *x) for x in ((211, 3, 1, 0), (225, 2, 1, 3), (532, 6, 1, 4), (444, 2, 1, 5), (313, 3, 1, 6), (254, 6, 1, 7), (131, 4, 2, 2), (515, 5, 2, 1), (41, 2, 2, 1), (312, 1, 2, 4), (221, 4, 2, 7), (412, 6, 1, 0))]
    + [("h_redef", 3, m) for m in (0, 1)] + [("h_redef_env", 3, m) for m in (0, 1)] + [("h_envexp", 0, 1, 0, 0), ("h_envexp", 1, 1, 0, 0), ("h_envexp", 1, 1, 1, 9), ("h_envexp", 0, 1, 1, 3), ("h_envexp", 1, 1, 0, 10), ("h_envexp", 2, 0, 0, 0), ("h_envexp", 2, 0, 1, 9), ("h_envexp", 3, 0, 1, 8)]
    + [("h_many", n, f, (n + f) % 2) for n in (4, 7, 9) for f in range(3)] + [("h_kinds", k, w, m) for k in (0, 1) for w in (0, 1) for m in (0, 1)] + [("h_open_call", f, f % 2) for f in range(8)] + [("h_builtin", n, h, (n + h) % 2) for n in (0, 2, 3, 5, 6) for h in range(3)] + [("h_builtin", 1, h, 0) for h in range(3)] + [("h_builtin", 4, h, 1) for h in range(2)] + [("h_defines", k, (k + i) % 2, i, 2) for k in range(6) for i in (0, 1)],
    [("h_open_call", f, 1 - f % 2) for f in range(8)] + [("h_defines", k, (k + i) % 2, i, 3) for k in range(6) for i in (0, 1)] + [("h_builtin", n, h, (n + h + 1) % 2) for n in (0, 2, 3, 5, 6) for h in range(3)] + [("h_calls", b, d, 2 if b % 3 else 1, (b + d) % 8) for b in (24, 211, 112, 245, 421, 522, 315, 144) for d in range(1, 7)] + [("h_many", n, f, m) for n in range(2, 10) for f in range(3) for m in (0, 1)] + [("h_redef", 4, m) for m in (0, 1)] + [("h_redef_env", 4, m) for m in (0, 1)] + [("h_expand", 3, 2, 1, 8), ("h_expand", 2, 2, 0, 0), ("h_expand", 3, 1, 1, 0), ("h_envexp", 1, 1, 1, 1), ("h_envexp", 1, 1, 0, 2), ("h_envexp", 3, 0, 1, 0), ("h_envexp", 2, 1, 0, 2), ("h_envexp", 0, 2, 1, 3), ("h_envexp", 1, 2, 0, 0)] + [("h_expand", 1, 3, 1, 0), ("h_expand", 2, 2, 1, 4), ("h_expand", 3, 1, 0, 1), ("h_expand", 2, 2, 1, 2)],
    "0 to 3 arguments in 9 written forms (braced, bare ASCII and multi-byte characters, brackets and punctuation, split off a longer word, commands) with symbolic letters, bodies of up to 2 pieces (thorough: 3) out of literals, commands, groups and arguments, seven ways to define, blanks and comments before arguments, two surroundings; the same for environment macros, four ways to define; any 3 definitions (8 ways) and calls of two macros, one of which may use the other (thorough: 4); any 3 definitions (4 ways) and uses of two environment macros (thorough: 4); three command macros and an environment macro of 0 to 2 arguments that use each other in bodies and arguments, 2 levels of calls, groups and conditionals deep, in eight surroundings; 4, 7 and 9 arguments (thorough: 2 to 9), any two of which the body uses; commands and environments of the same name; calls that are not complete at the end of the text (environments without their end in six forms, commands with an argument missing in two), which must be refused; redefinitions (3 ways) of commands and environments of the specification, with and without an argument; macros that define macros (6 shapes: commands, environments, the name as an argument, two levels), whose bodies are any 2 pieces (thorough: 3) out of literals and arguments of the outer and, behind \\mitexrecurse, the inner macro",
    "longer bodies, default arguments (not implemented by mitex), bodies that end in a line break; definitions inside groups, which mitex does not undo at the group's end")
# places of h_flat_in where text stands, not a formula
INTEXT = (9, 21, 23, 25, 27, 29, 31, 32, 37, 38, 39, 41)
PROPS["C10"] = prop(
    "Running text reaches the output character by character",
    "In text mode every ordinary character of the input appears in the output exactly once and in order, escaped where Typst would read it as markup; "
    "only comments, group braces and the blanks that start a line disappear.",
    ["inputs"], "all texts without commands and formulas",
    "The tests contain a few words of prose; no test ranges over characters, blanks, line ends and their neighbours.",
    [MX + "converter.rs", PA + "parser.rs", L + "token.rs"],
    [("escapes", MX + "converter.rs TypstConverter::convert (TokenComma .. TokenDitto)"), ("blank handling", MX + "converter.rs skip_next_space"), ("trivia", PA + "parser.rs")],
    ["mitex::convert_text"],
    [("h_flat", n, 0) for n in (1, 2, 3)] + [("h_flat_wide", 2, 0, c, 2) for c in range(4)] + [("h_flat_wide", 3, 0, 0, 2), ("h_flat_wide", 2, 0, 0, 3), ("h_marker", 0), ("h_marker", 1)] + [("h_flat_ctx", 2, 0, c) for c in range(5)] + [("h_flat_ctx", 3, 0, 1), ("h_group", 1, 1), ("h_group", 1, 2)] + [("h_long", n, 0, c, w) for n, c, w in ((20, 2, 0), (56, 0, 0), (120, 1, 0), (250, 2, 0), (56, 1, 1), (120, 0, 2))] + [("h_flat_in", 2, p) for p in INTEXT] + [("h_in", 1, p, 2, o) for p in INTEXT for o in range(5)],
    [("h_long", n, 0, c, w) for n in (4, 20, 36, 56, 72, 120, 250, 500) for c in range(3) for w in range(3)] + [("h_flat", 4, 0), ("h_flat_wide", 4, 0, 0, 2), ("h_flat_wide", 3, 0, 0, 3), ("h_group", 2, 2)] + [("h_flat_ctx", 3, 0, c) for c in (0, 2, 3, 4)] + [("h_flat_in", 3, p) for p in INTEXT] + [("h_in", 2, p, 2, o) for p in INTEXT for o in range(5)],
    "any 1 to 3 bytes of valid UTF-8 without \\ $ { } (thorough: 4); 2 or 3 characters of two bytes, 2 of three bytes in a row (thorough: 4, 3); 2 to 3 ASCII bytes between fixed words; one group with up to 2 bytes; words of 20 to 265 (thorough: 4 to 515) characters, or as many blanks or digits, with any character at both ends and in the middle; 2 ASCII bytes (thorough: 3) inside each of 12 constructs (tables, lists, quotes, captions, figures, command arguments, nested groups, text in a formula); a character, alone or next to a letter or blank, or multi-byte words inside any of them inside another construct (thorough: two)",
    "longer texts; braces other than one balanced group; a dash or a number with its dot at the start of a line, which Typst reads as a list item, is listed as a known finding for two texts and not looked for elsewhere")
PROPS["C11"] = prop(
    "Formula characters reach the output one by one",
    "In math mode every letter, digit and operator of the input appears in the output exactly once, in order, as a separate item, escaped where Typst gives it a meaning of its own.",
    ["inputs"], "all formulas without commands, scripts and groups",
    "The tests contain a few variables and operators; none ranges over characters and their neighbours.",
    [MX + "converter.rs", PA + "parser.rs", L + "token.rs"],
    [("word splitting and escapes", MX + "converter.rs TypstConverter::convert (TokenWord, TokenComma ..)")],
    ["mitex::convert_math"],
    [("h_flat", n, 1) for n in (1, 2, 3)] + [("h_flat_wide", 2, 1, c, 2) for c in range(4)] + [("h_flat_wide", 3, 1, 0, 2), ("h_flat_wide", 2, 1, 0, 3)] + [("h_flat_ctx", 2, 1, c) for c in range(5)] + [("h_flat_ctx", 3, 1, 1)] + [("h_long", n, 1, c, w) for n, c, w in ((20, 2, 0), (56, 0, 0), (120, 1, 0), (250, 2, 0), (56, 1, 1), (120, 0, 2))] + [("h_flat_in", 2, p) for p in range(42) if p not in INTEXT] + [("h_in", 1, p, 2, o) for p in range(42) for o in range(5) if p not in INTEXT],
    [("h_long", n, 1, c, w) for n in (4, 20, 36, 56, 72, 120, 250, 500) for c in range(3) for w in range(3)] + [("h_flat", 4, 1), ("h_flat_wide", 4, 1, 0, 2), ("h_flat_wide", 3, 1, 0, 3)] + [("h_flat_ctx", 3, 1, c) for c in (0, 2, 3, 4)] + [("h_flat_in", 3, p) for p in range(42) if p not in INTEXT] + [("h_in", 2, p, 2, 0) for p in range(42) if p not in INTEXT],
    "any 1 to 3 bytes of valid UTF-8 without \\ $ { } ^ _ ' (thorough: 4); 2 to 3 ASCII bytes between fixed words; words of 20 to 265 (thorough: 4 to 515) characters, or as many blanks or digits; 2 ASCII bytes (thorough: 3) inside each of 30 constructs (matrices, cases, alignments, scripts, groups, arguments, delimiters, every way to open a formula, formulas in tables, lists, quotes, captions); a character, alone or next to a letter or blank, or multi-byte words inside any of them inside another construct (thorough: two in one)",
    "longer formulas")
PROPS["C06"] = prop(
    "A conditional converts like the branch it selects",
    "Replacing \\iftrue and \\iffalse, with or without \\else and nested at will, by the branch they select does not change the conversion, whatever the branch not taken contains. "
    "The body of \\iftypst reaches the output exactly as written; its \\else branch disappears.",
    ["programs", "inputs"], "all nestings of conditionals, all contents of both branches",
    "The tests have two or three flat conditionals; nesting and skipped content with unbalanced braces or unknown commands is not tested.",
    [L + "macro_engine.rs", PA + "parser.rs"],
    [("branch selection and skipping", L + "macro_engine.rs MacroEngine::skip_false_branch, do_bump"), ("verbatim bodies", PA + "parser.rs Parser::eat_body_of_ifs, typst_code")],
    ["mitex::convert_math", "mitex::convert_text"],
    [("h_cond", 1, 0, m, c) for m in (0, 1) for c in range(6)] + [("h_cond", 2, 0, m, 0) for m in (0, 1)] + [("h_typst", 1, e, m) for e in range(3) for m in (0, 1)] + [("h_dead", 1, f, m) for f in range(5) for m in (0, 1)] + [("h_cond", 1, 0, m, 6) for m in (0, 1)] + [("h_cond_deep", n, f, n % 2, t) for n in (3, 5, 7) for f in range(3) for t in range(3)] + [("h_dead_macro", f, m, 1) for f in range(6) for m in (0, 1)],
    [("h_dead_macro", f, m, 2) for f in range(6) for m in (0, 1)] + [("h_cond_deep", n, f, m, t) for n in (2, 3, 4, 6, 8, 10) for f in range(3) for m in (0, 1) for t in range(3)] + [("h_dead", 2, f, m) for f in range(5) for m in (0, 1)] + [("h_cond", 1, 1, m, c) for m in (0, 1) for c in range(6)] + [("h_cond", 2, 0, m, c) for m in (0, 1) for c in range(1, 6)] + [("h_typst", 2, e, m) for e in range(3) for m in (0, 1)],
    "one conditional in six surroundings and two in a row, branches of up to two pieces with symbolic characters, 21 kinds of skipped content and any token (thorough: two) of a 92-token alphabet in five shapes, sixteen distances around the end of the expander's first page of tokens (thorough: nesting depth 1 in all surroundings); one (thorough: two) of 22 complete or broken definitions and uses of macros in branches not taken of six shapes; chains of 3, 5 and 7 conditionals one in the other (thorough: up to 10), alone, in a branch not taken and in a Typst block; \\iftypst bodies of any 2 printable bytes, blanks and line ends (thorough: 3), followed by nothing, comments, commands, line ends, an open delimiter or other letters than ASCII's",
    "\\begin and \\end in the body of \\iftypst (the tree holds their bare names) and macros there (they are defined and expanded); deeper or otherwise branched nesting; conditionals other than the three mitex knows")
PROPS["C07"] = prop(
    "Argument patterns match what their glob says",
    "A pattern of the specification accepts a sequence of arguments exactly when some way to choose its alternatives spells that sequence, and accepts a prefix exactly when the prefix can be extended to such a sequence; any pattern at all gets an answer, and what matches as a whole also matches as a prefix.",
    ["inputs"], "all patterns of the form the specification uses, all argument sequences",
    "The glob tests look at a dozen pattern/text pairs; the matcher backtracks over alternatives and counts brace depth by hand.",
    ["crates/mitex-glob/src/lib.rs", PA + "arg_match.rs"],
    [("backtracking and brace depth", "crates/mitex-glob/src/lib.rs glob_match_internal, skip_braces")],
    ["mitex_glob::glob_match_prefix", "mitex_glob::glob_match", "mitex_glob::glob_match_with_captures"],
    [("h_glob", 1, 3, 0, 2), ("h_glob", 2, 3, 0, 2), ("h_glob", 1, 3, 0, 3), ("h_glob", 2, 3, 1, 2), ("h_glob", 2, 3, 2, 2)] + [("h_glob_any", n, k) for n in range(1, 5) for k in range(4)] + [("h_glob_any", 5, k) for k in range(3)] + [("h_glob_nest", d, f) for d in (1, 2, 4, 10) for f in range(4)] + [("h_glob_long", n, f) for n in (1, 5, 12, 40) for f in range(7)],
    [("h_glob_nest", d, f) for d in range(1, 11) for f in range(4)] + [("h_glob_long", n, f) for n in (2, 3, 9, 20, 64, 130, 300) for f in range(7)] + [("h_glob", 3, 4, 0, 2), ("h_glob", 2, 4, 0, 3), ("h_glob", 3, 4, 1, 2), ("h_glob", 3, 4, 2, 2)] + [("h_glob_any", n, k) for n in (5, 6) for k in range(4)],
    "patterns of up to 2 items (thorough: 3), each a fixed kind, an optional one or a choice of up to 3; texts of up to 3 argument kinds (thorough: 4), all symbolic; patterns of any 5 ASCII characters (thorough: 6) against texts of any 2 (3), for answers and for the agreement of the entry points; choices nested up to ten deep in four forms; patterns and texts of up to 40 kinds (thorough: 300) in seven forms, one kind anywhere symbolic",
    "more than ten nested choices, which the matcher refuses; `*`, `**`, `?` and character classes, which the shipped specification does not use (`*` appears only alone); patterns in which an optional kind may also begin what follows it")
PROPS["C09"] = prop(
    "The output of a closed input is closed",
    "If every group, formula, environment and delimiter pair of the input is closed, then parentheses, brackets, braces, dollars and strings of the output nest properly, so that Typst reads back the structure the user wrote.",
    ["inputs"], "all closed inputs, both modes",
    "A snapshot shows that one output is right, not that no combination of cells, labels, captions, scripts and arguments leaves something open.",
    [MX + "converter.rs"],
    [("every emitter opens and closes", MX + "converter.rs convert_env_table, convert_env_figure, convert_attach_component, convert_clause_lr, convert_normal_command")],
    ["mitex::convert_math", "mitex::convert_text"],
    [("h_balance", 2, m, c) for m in (0, 1) for c in range(17)] + [("h_deep", 1, p, 1, 1 + p % 4) for p in range(42)],
    [("h_deep", 1, p, w, o) for p in range(42) for w in (1, 3) for o in range(5)] + [("h_deep", 2, p, 1, 0) for p in range(42)] + [("h_balance", 3, 1, c) for c in (0, 1, 2, 3, 15)] + [("h_balance", 3, 0, c) for c in (5, 6, 14)],
    "any 2 tokens of a 92-token alphabet in both modes inside each of 17 contexts (thorough: 3 tokens in eight of them), and one in each of 42 constructs inside another one (thorough: all pairs, or two tokens in one)",
    "labels, paths and colour names that themselves contain brackets; \\iftypst bodies, which are output as written")
PROPS["C12"] = prop(
    "A conversion leaves nothing behind",
    "Converting a document gives the same result whatever was converted before it in the same process, including documents that define macros or fail half-way.",
    ["histories", "inputs"], "all pairs of documents",
    "Each test converts in a fresh test process or looks at its result once; none converts the same text before and after another one.",
    [MX + "lib.rs", MX + "converter.rs", L + "macro_engine.rs", "crates/mitex-spec-gen/src/lib.rs"],
    [("global default specification", "crates/mitex-spec-gen/src/lib.rs DEFAULT_SPEC"), ("per-conversion state", MX + "converter.rs Converter::new, " + L + "macro_engine.rs MacroEngine::new")],
    ["mitex::convert_math", "mitex::convert_text"],
    [("h_again", 1, m, w) for m in (0, 1) for w in range(11)] + [("h_history", 3, 0, m) for m in (0, 1)],
    [("h_history", 5, 0, m) for m in (0, 1)] + [("h_again", 2, m, w) for m in (0, 1) for w in range(11)],
    "11 documents per mode with a symbolic letter, converted before and after a document of one token (thorough: two) of a 92-token alphabet in either mode, with or without the start of a definition; any three (thorough: five) conversions in a row of two documents with a symbolic letter under none or either of two specifications",
    "concurrent conversions")
PROPS["C18"] = prop(
    "A finished passage does not change what follows",
    "If a document A is complete (everything closed, all arguments given), converting A followed by P gives the conversion of A followed by the conversion of P.",
    ["inputs", "histories"], "all complete passages A, continuations P out of a list that covers all item kinds",
    "Tests convert isolated snippets, so state that leaks from one item into later ones (mode, environment, list indentation, pending label, blank handling) is not seen.",
    [MX + "converter.rs", PA + "parser.rs"],
    [("mode, environment, indentation and label must be restored", MX + "converter.rs Converter (enter_mode, enter_env, label, skip_next_space)"), ("parser list state", PA + "parser.rs ListState")],
    ["mitex::convert_math", "mitex::convert_text"],
    [("h_local", 2, m, c, q) for m in (0, 1) for c in (0, 1, 3, 6, 14) for q in (0, 1, 2, 3) if not (c != 0 and q % 2 == m)],
    [("h_local", 2, m, c, q) for m in (0, 1) for c in (0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 14, 15) for q in range(4)] + [("h_local", 3, m, 0, 1 - m) for m in (0, 1)],
    "A: any 2 tokens of a 92-token alphabet inside one of 5 contexts (thorough: 13 contexts, and 3 tokens at top level); P: four continuations per mode, each starting with `&`",
    "passages that define macros or hold conditionals; commands with optional arguments at the end of A")
PROPS["C23"] = prop(
    "The two ways to write a formula are the same",
    "\\( … \\) converts exactly like $ … $ and \\[ … \\] exactly like $$ … $$, whatever the formula contains and wherever it stands.",
    ["inputs"], "all complete formula bodies, all surroundings",
    "One snapshot per delimiter exists; none compares the two for arbitrary bodies.",
    [MX + "converter.rs", PA + "parser.rs", PA + "syntax.rs", L + "token.rs"],
    [("scopes of the two kinds", PA + "parser.rs Parser::stop_by_scope (DollarFormula, CmdFormula)"), ("inline or display", PA + "syntax.rs FormulaItem")],
    ["mitex::convert_text", "mitex::convert_math"],
    [("h_delims", 2, 1, c, d) for c in range(5) for d in (0, 1)] + [("h_delims", 2, 0, 0, 0)] + [("h_delims", 1, 1, c, d) for c in [5, 6, 7, 8] + [100 + p for p in INTEXT] for d in (0, 1)],
    [("h_delims", 3, 1, 0, d) for d in (0, 1)] + [("h_delims", 2, 0, c, d) for c in (0, 1) for d in (0, 1)] + [("h_delims", 2, 1, c, d) for c in [5, 6, 7, 8] + [100 + p for p in INTEXT] for d in (0, 1)],
    "bodies of any 2 tokens of a 92-token alphabet in five surroundings (thorough: 3 tokens at top level), one token (thorough: 2) in 16 more, among them behind commands that take the formula as their argument",
    "bodies with formula marks, conditionals or definitions of their own; incomplete bodies")
PROPS["C24"] = prop(
    "The words of a comment never matter",
    "Whatever stands between `%` and the end of its line changes neither the output nor whether the document converts, wherever the comment stands.",
    ["inputs"], "all comments, all places for one",
    "Comments appear in a few snapshots, always between ordinary words, never inside argument lists, environment clauses, scripts or tables, and never with control characters or markup in them.",
    [L + "token.rs", PA + "parser.rs", MX + "converter.rs"],
    [("comment token", L + "token.rs Token::LineComment"), ("trivia between arguments", PA + "parser.rs Parser::match_arguments_, trivia")],
    ["mitex::convert_text", "mitex::convert_math"],
    [("h_comment", 1, m, c, 2) for m in (0, 1) for c in range(14)] + [("h_comment", 2, 1, 0, 1)] + [("h_comment", 1, 0, 100 + p, 1) for p in range(42)] + [("h_comment", 1, 0, 200 + p, 1) for p in range(14)],
    [("h_comment", 1, 0, 200 + p, 2) for p in range(14)] + [("h_comment", 2, m, c, 1) for m in (0, 1) for c in (0, 1, 2, 3, 5, 6, 7, 9, 11, 12)] + [("h_comment", 1, m, c, 3) for m in (0, 1) for c in (0, 1, 6)] + [("h_comment", 1, 0, 100 + p, 2) for p in range(42)],
    "comments of any 2 ASCII bytes without line end (thorough: 3) before or after any token of a 92-token alphabet inside each of 14 contexts; one byte at every place among two tokens, next to any token inside 42 more constructs and inside 14 texts that are read by hand (labels, paths, options, colours, column specifications)",
    "longer comments; comments inside \\iftypst bodies, which are output as written")
PROPS["C08"] = prop(
    "What the specification does not hold is refused by name",
    "A command or environment that neither the specification nor the document defines makes the conversion fail with a message that names exactly it, wherever in the document it stands; it is never dropped or passed through.",
    ["inputs"], "all names, all places",
    "Two snapshots use one made-up name each, at top level; a name nested in arguments, cells, captions, scripts or list items is never tried, nor are names that start like a known one.",
    [MX + "converter.rs", PA + "parser.rs", L + "token.rs", "crates/mitex-spec/src/lib.rs"],
    [("look-up of the name", MX + "converter.rs convert_normal_command, convert_env; crates/mitex-spec/src/lib.rs CommandSpec::get"), ("errors must survive nesting", MX + "converter.rs convert and callers")],
    ["mitex::convert_math", "mitex::convert_text"],
    [("h_unknown", 2 + (p % 4 == 0), e, m, p) for m in (0, 1) for e in (0, 1) for p in range(25)]
    + [("h_unknown", 6, e, p % 2, p) for e in (0, 1) for p in range(25)] + [("h_near", 0, 1, h % 2, h) for h in range(4)] + [("h_near", p, 0, p % 2, p % 4) for p in range(16)] + [("h_unknown_char", n, (n + p) % 2, p) for n in range(1, 5) for p in range(25)],
    [("h_near", p, 0, 1 - p % 2, (p + q) % 4) for p in range(16) for q in range(1, 4)] + [("h_unknown", 4, e, m, p) for m in (0, 1) for e in (0, 1) for p in range(25)],
    "names of any 2 or 3 letters and `@` (thorough: 4), and of 8 letters of which two are any, for environments optionally with a final star, that the default specification does not hold, in 25 places and both modes; every known name with one letter (or star) put in front, appended or exchanged, or two appended (quick: each known command with one of the four); every single character that is no letter, blank, bracket or parenthesis (of four-byte ones those below U+40000), in the 25 places",
    "longer names; names TeX's tokenizer would not read as one name")
PROPS["C16"] = prop(
    "A command takes exactly the arguments its specification says",
    "For each argument shape of a specification (none, fixed number, range, glob, all that follows, the item before, both sides) the converted call holds exactly the arguments that shape selects from what is written, whatever stands between them, and everything else stays outside.",
    ["inputs", "programs"], "all shapes, all sequences of following items",
    "The argument tests fix one command and one spelling of its arguments; which blanks, comments, brackets, cells and characters follow is what decides the matching, and no test ranges over that.",
    [PA + "parser.rs", PA + "arg_match.rs", "crates/mitex-glob/src/lib.rs", MX + "converter.rs"],
    [("argument matchers", PA + "arg_match.rs ArgMatcherBuilder, ArgMatcher::try_match"), ("argument collection", PA + "parser.rs Parser::match_arguments, match_arguments_, command"),
     ("infix and left arguments", PA + "parser.rs Parser::list_state, wrap_args"), ("output of calls", MX + "converter.rs convert_normal_command")],
    ["mitex::convert_math with a caller's CommandSpec"],
    [("h_shape", 2, s, c, 0) for s in range(12) for c in range(6)] + [("h_shape", 3, s, 0, 0) for s in (2, 6, 8)] + [("h_wide", 1 + (k == 0), k, c, 0) for k in range(3) for c in range(7)] + [("h_wide", 1, k, c, 1) for k in (0, 2) for c in range(7)] + [("h_shape", 2, s, 6, 1) for s in (0, 2, 8)],
    [("h_shape", 3, s, c, 0) for s in range(12) for c in range(6)] + [("h_wide", 2, k, c, k != 1) for k in range(3) for c in range(7)] + [("h_shape", 2, s, c, 1) for s in range(12) for c in range(7)],
    "commands of 12 right-hand shapes and the three wide ones under a caller's specification with symbolic alias; two units (thorough: three) out of 9 kinds with symbolic characters, separated by blanks, comments or line ends, in 7 surroundings; with row ends as a tenth kind one unit on each side (thorough: two)",
    "longer argument lists; the other commands' shapes mixed in; optional-argument defaults")
PROPS["C17"] = prop(
    "Scripts belong to the item right before them",
    "`^` and `_` and their script convert to an attachment on exactly the one item before them (a word's last character, a group, a command with its arguments, a delimited formula, an environment), or on an empty base at the start of a formula, group or cell; script content converts as it does alone.",
    ["inputs"], "all base and script kinds, all surroundings",
    "The attachment tests show a few bases with one-digit scripts in one surrounding; bases in cells, after row breaks, behind blanks, and scripts that are commands with arguments are not combined.",
    [PA + "parser.rs", MX + "converter.rs"],
    [("the last item of a list", PA + "parser.rs Parser::attach_component, ListState"), ("base or no base", MX + "converter.rs convert_attach_component")],
    ["mitex::convert_math"],
    [("h_attach", k, p, w, q) for k in (1, 2) for p in range(9) for w in range(8) for q in range(8) if not (w in (1, 4, 6) and (p in (2, 3) or q in (3, 4))) and (p * 3 + w * 5 + q * 7) % (16 if k == 1 else 48) == 0]
    + [("h_in", 1, p, 0, o) for p in range(42) for o in (0, 1 + p % 4)]
    + [("h_script_cmd", s, c) for s in range(11) for c in range(7) if s != 6 or c == 2],
    [("h_attach", k, p, w, q) for k in (1, 2) for p in range(9) for w in range(8) for q in range(8) if not (w in (1, 4, 6) and (p in (2, 3) or q in (3, 4))) and (p * 3 + w * 5 + q * 7) % (2 if k == 1 else 12) == 0]
    + [("h_in", 1, p, 0, o) for p in range(42) for o in range(5)] + [("h_in", 2, p, 0, 0) for p in range(42)],
    "one script of 8 kinds on any of 18 base kinds, two of 4 kinds on any of 7, with symbolic letters, operators and blanks, in a sample of the 576 combinations of what stands before, after and around (thorough: a larger sample); each of 14 scripted forms inside each of 42 constructs alone and inside another one (thorough: all pairs, and two forms in one); a script that is one of 7 incomplete or greedy calls at the end of 10 constructs",
    "primes; more than two scripts; blanks next to closing parentheses of the output are not compared")
PROPS["C31"] = prop(
    "The given specification alone governs a conversion",
    "Under a specification given by the caller, its environments convert by their declared kind, arguments and alias, and names that only the built-in specification holds are unknown.",
    ["inputs", "programs"], "all environment kinds, all names of the built-in specification",
    "All tests use the built-in specification; a caller's specification is what the Typst package and the wasm plugin offer their users.",
    [MX + "lib.rs", MX + "converter.rs", PA + "lib.rs", "crates/mitex-spec/src/lib.rs"],
    [("both phases use the same specification", MX + "lib.rs convert_inner; " + PA + "lib.rs parse"), ("environment kinds", MX + "converter.rs convert_env")],
    ["mitex::convert_math", "mitex::convert_text"],
    [("h_env", f, m, n, c) for f in range(8) for m in (0, 1) for n in (0, 1, 2, 11, 12, 22, 32) for c in (0, 1) if (f != 5 or n) and (n < 3 or c)] + [("h_only", m, b, 0, 0) for m in (0, 1) for b in range(17)] + [("h_history", 3, 0, m) for m in (0, 1)],
    [("h_env", f, m, n, c) for f in range(8) for m in (0, 1) for n in range(4) for c in (0, 1) if f != 5 or n] + [("h_only", m, b, 0, 0) for m in (0, 1) for b in range(17)] + [("h_history", 4, 0, m) for m in (0, 1)],
    "one environment of each of 8 kinds with symbolic alias, 0 to 2 arguments (thorough: 3; in formulas of 4 forms) by number, range or glob and symbolic cells, alone and between words, in both modes; every name of the built-in specification under one that lacks it; any three (thorough: four) conversions in a row under none or either of two specifications",
    "specifications that redefine names the lexer handles itself")
PROPS["C32"] = prop(
    "Every command of the built-in specification converts to its alias",
    "Each command the built-in specification lists is accepted in both modes with the arguments it declares and converts to its Typst alias (its own name if it has none) applied to exactly those arguments.",
    ["inputs"], "every entry of the specification, all argument letters",
    "Tests use a few dozen of the about one thousand entries; an entry whose table, archive or shape went wrong would go unnoticed.",
    ["crates/mitex-spec-gen/build.rs", "crates/mitex-spec-gen/src/lib.rs", "crates/mitex-spec/src/lib.rs", "packages/mitex/specs/mod.typ", MX + "converter.rs"],
    [("generated specification", "crates/mitex-spec-gen/src/lib.rs DEFAULT_SPEC"), ("output of calls", MX + "converter.rs convert_normal_command")],
    ["mitex::convert_math", "mitex::convert_text", "mitex_spec_gen::DEFAULT_SPEC"],
    [("h_alias", m, b, 0, 0) for m in (0, 1) for b in range(17)],
    [("h_alias", m, b, 0, 0) for m in (0, 1) for b in range(17)],
    "every command of the built-in specification (a symbolic index into it) in both modes, one call each, symbolic one-character arguments",
    "commands with converters of their own (labels, items, images, colours), those that define macros, conditionals, and globs other than one optional and one required argument")
PROPS["C13"] = prop(
    "Rolling back definitions restores exactly what was before",
    "The map of macro definitions behaves like a plain map under insertions, removals and look-ups, and after rolling back to a snapshot, under any nesting of snapshots, commits and rollbacks, it holds exactly what it held when the snapshot was taken.",
    ["histories"], "all sequences of operations",
    "The map has no test of its own; the converter's tests never roll back over removed or redefined names in nested scopes.",
    [L + "snapshot_map.rs"],
    [("undo entries", L + "snapshot_map.rs SnapshotMap::insert, remove, rollback_to, commit")],
    ["mitex_lexer::snapshot_map::SnapshotMap"],
    [("h_snap", n, 3) for n in (1, 2, 3, 4, 5, 6)] + [("h_snap_long", n, k, h) for n in (8, 40, 300, 1000) for k in (5, 40) for h in (0, 1)],
    [("h_snap", 7, 4)] + [("h_snap_long", n, k, h) for n in (3000, 10000) for k in (5, 300) for h in (0, 1)],
    "any sequence of up to 6 operations (thorough: 7) out of insert, remove, clear, snapshot, roll back, commit and indexing over three keys and symbolic values, at most 3 open snapshots (thorough: 4); histories of up to 1000 insertions and removals (thorough: 10000) over 5 or 40 keys (thorough: 300) with an inner snapshot taken at any of six places and given back at any of six",
    "other long histories; snapshots given back in another order than they were taken")
PROPS["C14"] = prop(
    "A specification means the same after being stored",
    "Every kind of entry a specification can hold, written as JSON, compiles to the shape, pattern, context and alias it says; storing the result in binary form and loading it, from aligned or unaligned bytes, or writing it back as JSON, changes no entry, and conversions under the loaded specification are the same as under the original.",
    ["inputs", "programs"], "all entries of all kinds",
    "The specification's test stores and loads one specification and looks at its archived form; how each kind of entry is decoded is not tested at all, and the entries' meaning is only sampled through the built-in one.",
    ["crates/mitex-spec/src/lib.rs", "crates/mitex-spec/src/stream.rs", "crates/mitex-spec/src/preludes.rs", PA + "parser.rs", PA + "arg_match.rs"],
    [("archive and archived access", "crates/mitex-spec/src/lib.rs CommandSpec::to_bytes, from_bytes"), ("JSON forms", "crates/mitex-spec/src/lib.rs JsonCommandSpec and its From conversions; src/query.rs")],
    ["mitex_spec::{JsonCommandSpec, CommandSpec}", "mitex::convert_math", "mitex::convert_text"],
    [("h_spec", k, o) for k in range(14) for o in (0, 8, 11, 12, 13) if o != k and not (k > 10 and o > 10)] + [("h_spec_json", k) for k in range(14)] + [("h_spec_use", k, m, p) for k in range(14) for m in (0, 1) for p in (0, 3)] + [("h_spec_use", k, 0, p) for k in (7, 11, 13) for p in (1, 2, 4, 8)],
    [("h_spec", k, o) for k in range(14) for o in range(14)] + [("h_spec_use", k, m, p) for k in range(14) for m in (0, 1) for p in (0, 1, 2, 3, 7, 16)],
    "two entries at a time of 14 kinds (thorough: all pairs), symbolic digits and aliases (or empty ones), all context features, 4 globs; stored bytes at two offsets (some at six; thorough: all at six); one document per entry",
    "globs of other forms; broken JSON and broken stored bytes")
PROPS["C19"] = prop(
    "A label lands behind what it labels",
    "\\label anywhere inside an equation, a table, a figure or its caption puts that label, unchanged, directly behind that construct and changes nothing else of the output; nested constructs keep their own labels; elsewhere in text the label stays where it was written.",
    ["inputs", "histories"], "all labels, all contents around it, all nestings",
    "Two or three snapshots label an equation or a figure at its end; the converter keeps one pending label in its state, which every construct in between may lose, duplicate or take.",
    [MX + "converter.rs"],
    [("the pending label", MX + "converter.rs convert_env, convert_normal_command (\\label), write_label")],
    ["mitex::convert_text"],
    [("h_name", 3, w) for w in range(1, 5)] + [("h_label", 2, p, k) for p in range(32) for k in range(4)] + [("h_label2", 2, o, k) for o in (0, 1) for k in range(7) if (o, k) != (1, 6)],
    [("h_name", 4, w) for w in range(1, 5)] + [("h_label", 3, p, k) for p in range(32) for k in range(4)] + [("h_label2", 3, o, k) for o in (0, 1) for k in range(7) if (o, k) != (1, 6)],
    "labels of 2 symbolic characters (thorough: 3) in 6 spellings, with comments and skipped branches among them, at 32 places (arguments of commands, scripts, delimiters, groups and items of lists included), with one of 12 kinds of content before and after; labels of 3 (thorough: 4) printable characters other than \\ { } % $ ^ _ at 4 places; two labels in each of 7 pairs of a construct and another inside it, both orders",
    "labels that end in `_`; labels in cells of a tabular and in plain formulas; more than one label for one construct")
PROPS["C28"] = prop(
    "Lists convert to marked and indented lines",
    "Each \\item becomes a line with the marker of its list (- or +) indented by two spaces per enclosing list, every further line of an item is indented to belong to it, the indentation is back to its old depth after \\end, and \\item outside a list is refused.",
    ["inputs", "histories"], "all nestings and contents of lists",
    "Three snapshots show a flat and a nested list; none combines line breaks, comments, environments, formulas and several levels of nesting, where the indentation is kept by hand.",
    [MX + "converter.rs"],
    [("indentation and markers", MX + "converter.rs convert_env_itemize, convert_env_enumerate, convert_command_item, indent"), ("blanks after line breaks", MX + "converter.rs skip_next_space")],
    ["mitex::convert_text", "mitex::convert_math"],
    [("h_list", 4, 0), ("h_list", 4, 2), ("h_list", 3, 1), ("h_list", 3, 3)] + [("h_item", p, 1) for p in range(7)] + [("h_item", p, 0) for p in (0, 1, 2)],
    [("h_list", 4, c) for c in range(4)] + [("h_list", 5, 0)],
    "any sequence of 3 or 4 (thorough: 4, and 5 at top level) out of 12 operations (items, words, line ends, blanks, formulas, comments, groups, display formulas over two lines, begin and end of itemize, enumerate and a quote) inside a list, in four surroundings",
    "optional labels of \\item; text on the same line behind \\end of a list")
PROPS["C29"] = prop(
    "Tables keep their columns, rules and cells",
    "A tabular converts to a table whose column count, alignments and vertical rules are those of its column specification, with the horizontal rules and cells of its body in order, each cell exactly as written; a column letter mitex does not know is refused by name.",
    ["inputs"], "all column specifications, all cell sequences",
    "Two or three snapshots show complete tables; empty cells, rules between and after rows, comments, line ends and separators inside nested constructs are not combined.",
    [MX + "converter.rs"],
    [("cells and rules", MX + "converter.rs convert_env_table, TableState and the handling of TokenAmpersand, ItemNewLine, hline")],
    ["mitex::convert_text", "mitex::convert_math"],
    [("h_table", 2, 2, c) for c in range(4)] + [("h_table", 3, 1, 0), ("h_table", 3, 1, 2), ("h_table", 1, 3, 0), ("h_table", 0, 4, 1), ("h_column", 1, 0), ("h_column", 1, 1), ("h_column", 2, 1)] + [("h_columns", k, b) for k, b in ((5, 1), (7, 0), (8, 1), (9, 12))],
    [("h_table", 3, 1, c) for c in (1, 2, 3)] + [("h_table", 4, 1, 0), ("h_table", 2, 3, 0), ("h_column", 3, 1)] + [("h_columns", k, k) for k in range(31)],
    "any 2 to 3 parts (thorough: 4) of a body out of 14 kinds (words, &, line breaks, blanks, four rules, line ends, comments with a symbolic character, commands, formulas, groups, and one of 15 other things a cell may begin with) under any column specification of up to 3 of l, c, r, | in four surroundings; specifications of 10 to 14 columns and rules with blanks and comments between them, with none to 12 cells (thorough: up to 35, as many cells)",
    "tabular without arguments, \\multicolumn and \\cline, p{} columns, & and line breaks inside \\text in a cell")
PROPS["C30"] = prop(
    "Images and colours keep what their arguments say",
    "\\includegraphics keeps its path, width and height, with lengths relative to the text turned into percentages, and drops the other options; \\textcolor, \\colorbox and \\color keep colour model, colour and the text they colour.",
    ["inputs"], "all option lists, paths, colours and contents",
    "One or two snapshots each; option lists with blanks, several keys, other keys in between and factors are not tested.",
    [MX + "converter.rs"],
    [("options", MX + "converter.rs convert_command_includegraphics, get_option_str"), ("colours", MX + "converter.rs convert_command_color, textcolor, colorbox")],
    ["mitex::convert_text", "mitex::convert_math"],
    [("h_image", 2, 0), ("h_image", 0, 0), ("h_name", 3, 0)] + [("h_image", 1, c) for c in range(4)] + [("h_color", w, c, 1) for w in range(3) for c in range(4)] + [("h_color", w, 0, 0) for w in range(3)],
    [("h_image", 2, c) for c in (1, 2, 3)] + [("h_name", 5, 0)],
    "up to 2 options of width, height, up to six other keys and any three letters, with up to 6 forms of lengths and symbolic digits, blanks and comments around, symbolic paths of 3 characters (printable ones; thorough: 5), four surroundings (thorough: 2 options in each); three colour commands with and without model or colour, symbolic colours and text, four surroundings and formulas",
    "more options; lengths with other macros; \\color with several items in a formula")
PROPS["C33"] = prop(
    "Constructs nest; each keeps its own cells and rows",
    "A construct (environment, group, delimiter pair, command with arguments, formula in text, text in a formula) converts inside any other exactly as its kind demands: separators and line breaks belong to the innermost environment with cells, in the form that environment's kind asks for, and mode and environment of the outer construct are back after it.",
    ["inputs", "programs"], "all nestings of constructs",
    "Snapshots show a matrix or cases alone; what `&` and `\\\\` mean depends on the stack of constructs around them, which the converter keeps in two saved fields.",
    [MX + "converter.rs", PA + "parser.rs"],
    [("environment and mode stacks", MX + "converter.rs enter_env, exit_env, enter_mode, exit_mode"), ("separators and breaks", MX + "converter.rs TokenAmpersand, ItemNewLine")],
    ["mitex::convert_math", "mitex::convert_text"],
    [("h_nest", 3, 0, 99, 99), ("h_nest", 3, 1, 99, 99), ("h_nest", 4, 0, 99, 99), ("h_nest", 4, 1, 99, 99)] + [("h_in", 1, p, 1, o) for p in range(42) for o in (0, 1 + p % 4)],
    [("h_nest", 5, 0, f, 99) for f in range(12)] + [("h_nest", 5, 1, f, 99) for f in range(9)] + [("h_in", 1, p, 1, o) for p in range(42) for o in range(5)] + [("h_in", 2, p, 1, 0) for p in range(42)],
    "any sequence of up to 4 steps (thorough: 5): a symbolic letter, a separator, a line break, or opening or closing one of 12 math and 9 text constructs, everything closed at the end; each of 34 math and 28 text constructs with a symbolic letter inside each of 42 places, alone and inside another construct (thorough: all pairs, and two in one), compared with its conversion alone",
    "deeper nesting")
PROPS["C20"] = prop(
    "compile reads and writes the files its documentation names",
    "mitex compile reads the file named by -i or the first positional argument, and writes the one named by -o or the second one, or else the input's name with its extension replaced by .typ; contradictory, missing or surplus file names are refused.",
    ["inputs"], "all combinations of named and positional file names",
    "The command line has no test at all, and a wrong default destroys the user's source file.",
    ["crates/mitex-cli/src/lib.rs", "crates/mitex-cli/src/main.rs"],
    [("choice of the files", "crates/mitex-cli/src/lib.rs process_opts")],
    ["mitex_cli::verif_compile_paths (hook around process_opts)"],
    [("h_paths", 2, k, p) for k in range(4) for p in range(3) if (k & 1) + (k >> 1) + p < 4] + [("h_paths", 3, 0, 1), ("h_paths", 3, 1, 0), ("h_paths", 1, 0, 3)],
    [("h_paths", 3, k, p) for k in range(4) for p in range(3) if (k & 1) + (k >> 1) + p < 4] + [("h_paths", 2, 0, 3), ("h_paths", 1, 1, 3), ("h_paths", 4, 1, 0)],
    "named input and output given or not, 0 to 3 positional names, each with symbolic characters (letters, `.`, `_`, `-`), with or without directory and with 5 extensions",
    "clap's own parsing of the command line; reading and writing the files",
    hook="mitex_cli::verif_compile_paths under cfg(mitex_verif)")
PROPS["C34"] = prop(
    "The plugin's entry points answer as the library does",
    "compile_spec, convert_math and convert_text of the plugin convert like the library under the specification given in binary form (the built-in one if it is empty), whatever was called before; bytes that are no UTF-8 text and JSON that is no specification are refused with a message, and a compiled specification means what its JSON says.",
    ["inputs", "history"], "all bytes, all specifications, all orders of calls",
    "The plugin is what Typst users run; its only tests convert `$abc$` and `abc`, are not built by default, and never give a specification or bytes that are no text.",
    ["crates/mitex-wasm/src/lib.rs"],
    [("entry points", "crates/mitex-wasm/src/lib.rs wasm_host::convert_math, convert_text, compile_spec"), ("choice of the specification", "crates/mitex-wasm/src/lib.rs impls::extract_spec")],
    ["wasm_host::convert_math, convert_text and compile_spec of crates/mitex-wasm (its source built as a module of the harness, features typst-plugin and spec-api)"],
    [("h_plugin", 2, m, c) for m in (0, 1) for c in range(4)] + [("h_plugin", 3, m, 0) for m in (0, 1)] + [("h_plugin_spec", k, m) for k in [*range(14), 99] for m in (0, 1)] + [("h_plugin_json", 1, p) for p in range(5)] + [("h_plugin_json", 2, 4)] + [("h_plugin_turns", a, b, m) for a in (0, 2, 5, 9, 11) for b in (0, 3, 6, 10) for m in (0, 1)] + [("h_history", 3, 1, m) for m in (0, 1)],
    [("h_plugin", 4, m, 0) for m in (0, 1)] + [("h_plugin", 3, m, c) for m in (0, 1) for c in (1, 2, 3)] + [("h_plugin_json", 2, p) for p in (0, 1)] + [("h_plugin_turns", a, b, m) for a in range(14) for b in range(12) for m in (0, 1)] + [("h_history", 5, 1, m) for m in (0, 1)],
    "any 2 bytes (thorough: 3) in four documents and any 3 (thorough: 4) alone, in both modes; every kind of entry with symbolic names, numbers and options; any byte (thorough: two) in four places of a specification's JSON; four calls in a row under two specifications and the built-in one, and any three (thorough: five) calls with documents whose result is known",
    "the transfer of bytes between Typst and WebAssembly (wasm-minimal-protocol, replaced by a stand-in that leaves the functions as they are); binary specifications that were not written by compile_spec; numbers with a fraction in JSON")
NOT_APPLICABLE = {}
PROPS["C35"] = prop(
    "compile writes a prelude and the conversion, or nothing",
    "mitex compile writes the library's conversion of its input file (or its syntax tree) byte by byte, behind an import of the package and one definition for each handler the specification names; "
    "a file that is missing, is no UTF-8 text or cannot be converted leaves the output file as it was, and the message says why.",
    ["inputs", "faults"], "all contents of the input file",
    "The command line has no test; a prelude that misses a handler, or an output written in spite of an error, shows only when the written document is compiled.",
    ["crates/mitex-cli/src/main.rs", "crates/mitex-cli/src/utils.rs"],
    [("reading, converting and writing", "crates/mitex-cli/src/main.rs compile"), ("the message of a failure", "crates/mitex-cli/src/utils.rs From<anyhow::Error> for Error")],
    ["mitex_cli::verif_compile (hook around compile)"],
    [("h_compile", 1, c, f, s) for c in range(5) for f in (0, 1) for s in (0, 1)] + [("h_compile", 2, 0, 0, 0), ("h_compile", 2, 4, 1, 0), ("h_compile_none", 0, 0, 0, 0), ("h_compile_none", 0, 0, 0, 1)],
    [("h_compile", 2, c, 0, s) for c in range(5) for s in (0, 1)] + [("h_compile", 2, c, 1, 0) for c in range(5)] + [("h_compile", 3, 0, 0, 0)],
    "one byte of any value and one of any text (2 in two places, thorough: 2, and 3 alone) inside 5 documents, with a file at the output's place before, as Typst and as syntax tree; a missing input file",
    "longer files; faults of the file system other than a missing file; the files are a model of open, read, write and errno in memory, the replays use real ones in a scratch directory",
    hook="mitex_cli main.rs verif_compile under cfg(mitex_verif)")
PROPS["C36"] = prop(
    "Delimited groups hold their delimiters and what is between them",
    "\\left d X \\right e converts to one lr(...) with the conversions of d, X and e in this order, nothing for a delimiter that is a dot, "
    "whatever blanks or comments stand before the delimiters, whatever characters X begins with, and wherever the group stands.",
    ["inputs"], "all delimiters, contents and surroundings",
    "The tests show a dozen pairs of delimiters around plain letters; delimiters behind line ends and comments, contents that could be read as part of the delimiter, and groups in groups are not among them.",
    [PA + "parser.rs", MX + "converter.rs"],
    [("reading the delimiter", PA + "parser.rs Parser::clause_lr, item_lr, single_char"), ("output", MX + "converter.rs convert_clause_lr")],
    ["mitex::convert_math"],
    [("h_lr", 1, c, l) for c in range(9) for l in range(24) if (c + l) % 3 == 0] + [("h_lr", 2, 0, 0), ("h_lr", 2, 3, 8), ("h_lr", 2, 7, 14)],
    [("h_lr", 1, c, l) for c in range(9) for l in range(24)] + [("h_lr", 2, c, l) for c in range(9) for l in (0, 8, 10, 12)],
    "each of 24 left and 24 right delimiters, 5 and 4 kinds of gaps before them, 11 kinds of contents with symbolic characters, in a third of the pairs of left delimiter and 9 surroundings (thorough: all); one group in another",
    "groups without \\right; commands with arguments as delimiters; the number of blanks in the output")

# Size: many items in a row, deep nestings, long names (harness/src/props/big.rs). Which of them says something about which property.
ROWS = {"C28": [0, 1], "C29": [2, 3], "C33": [4, 5, 6, 7, 8, 9, 10, 27, 28, 30], "C05": [11, 12, 13], "C06": [14, 15, 32], "C24": [16],
        "C16": [17, 18, 19, 31], "C17": [20, 21], "C36": [22, 23], "C19": [24, 29], "C30": [25, 26]}
INSIDE = {"C33": [0, 1, 2, 3, 7, 8, 9, 10, 11, 12, 13, 18, 19], "C17": [4, 5], "C36": [6], "C19": [14], "C30": [15], "C06": [16, 17], "C16": [20]}
LENGTHS = {"C24": [0], "C19": [1, 10], "C30": [2, 9, 11, 12], "C08": [3, 4], "C05": [5, 7], "C06": [6, 8], "C10": [13], "C11": [14]}
VIEWS = {"C02": 1, "C03": 2, "C04": 3, "C34": 4}
for _id in PROPS:
    _p, _b = PROPS[_id], []
    if _id in ROWS:
        _p["quick"] += [("h_row", n, w) for w in ROWS[_id] for n in (1, 30, 250, 1000)]
        _p["thorough"] += [("h_row", n, w) for w in ROWS[_id] for n in (*range(17, 250, 16), 500)]
        _b.append("%d kinds of items, each 1 to 16, 30 to 45, 250 to 265 and 1000 to 1015 times in a row (thorough: 1 to 265 and two larger ranges)" % len(ROWS[_id]))
    if _id in INSIDE:
        _p["quick"] += [("h_inside", n, w) for w in INSIDE[_id] for n in (1, 60)]
        _p["thorough"] += [("h_inside", n, w) for w in INSIDE[_id] for n in (*range(9, 60, 8), 130, 200)]
        _b.append("%d constructs inside themselves 1 to 8 and 60 to 67 times (thorough: 1 to 67 and up to 207)" % len(INSIDE[_id]))
    if _id == "C28":
        _p["quick"] += [("h_lists", n, h) for h in (0, 1) for n in (1, 60)]
        _p["thorough"] += [("h_lists", n, h) for h in (0, 1) for n in (*range(9, 60, 8), 120)]
        _b.append("lists inside lists 1 to 8 and 60 to 67 deep (thorough: 1 to 67, and 120 to 127)")
    if _id == "C05":
        _p["quick"] += [("h_chain", n, h) for h in range(4) for n in (1, 120)]
        _p["thorough"] += [("h_chain", n, h) for h in range(4) for n in (*range(9, 120, 16), 300)]
        _b.append("1 to 8 and 120 to 127 macros, each using the one before it (thorough: up to 307)")
    if _id in LENGTHS:
        _p["quick"] += [("h_length", n, w) for w in LENGTHS[_id] for n in (4 if _id == "C08" else 1, 60, 250)]
        _p["thorough"] += [("h_length", n, w) for w in LENGTHS[_id] for n in (*range(17, 250, 16), 1000)]
        _b.append("names and texts of 1 to 16 (unknown names: 4 to 19), 60 to 75 and 250 to 265 characters, three of them symbolic, with other letters than ASCII's at their ends (thorough: 1 to 265 and 1000 to 1015)")
    if _id == "C16":
        _p["quick"] += [("h_args", n, h) for h in range(5) for n in (1, 120, 240)]
        _p["thorough"] += [("h_args", n, h) for h in range(5) for n in range(17, 240, 16)]
        _b.append("commands and environments of 1 to 16, 120 to 135 and 240 to 255 arguments (thorough: 1 to 255)")
    if _id == "C31":
        _p["quick"] += [("h_governed", d, 0, 1) for d in range(20)]
        _b.append("20 documents, each twice, under the built-in specification, two with other aliases, one with other shapes and an empty one")
    if _id in ("C12", "C34"):
        _p["quick"] += [("h_governed", d, int(_id == "C34"), 0) for d in range(20)]
        _b.append("any two of 20 documents that use a name of each kind, under any two of five specifications")
    if _id in VIEWS:
        _v = VIEWS[_id]
        _p["quick"] += [("h_row", 60, w, _v) for w in range(33)] + [("h_inside", 30, w, _v) for w in range(21)]
        _p["thorough"] += [("h_row", n, w, _v) for w in range(33) for n in (1, 120, 250)] + [("h_inside", n, w, _v) for w in range(21) for n in (1, 100)]
        _b.append("33 kinds of items 60 to 75 times in a row and 21 constructs inside themselves 30 to 37 times (thorough: up to 265 and 107)")
    if _b:
        _p["bounds"] += "; " + "; ".join(_b)
