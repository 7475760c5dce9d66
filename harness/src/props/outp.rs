//! Properties of whole conversions: balance, locality, independence.
use super::flat::IN;
use super::sym::*;
use super::total::{atom, conv, ATOMS, CTX};
use mitex_parser::syntax::{SyntaxKind::*, SyntaxNode};
use mitex_parser::{parse, ArgPattern, ArgShape};
use mitex_spec::{CmdShape, CommandSpec, CommandSpecItem as I, EnvShape};
use mitex_spec_gen::DEFAULT_SPEC;
use rowan::ast::AstNode;

/// every group, formula, environment and delimiter pair of the input is closed
pub fn closed(root: &SyntaxNode) -> bool {
    for n in root.descendants() {
        let last = n.last_child_or_token().map(|l| l.kind());
        let ok = match n.kind() {
            ItemCurly => last == Some(TokenRBrace),
            ItemBracket => last == Some(TokenRBracket),
            ItemParen => last == Some(TokenRParen),
            ItemEnv => last == Some(ItemEnd),
            ItemLR => n.children().filter(|c| c.kind() == ClauseLR).count() == 2,
            ItemFormula => {
                let end = |t: Option<mitex_parser::syntax::SyntaxElement>| t.and_then(|t| t.as_token().map(|t| t.text().to_string())).unwrap_or_default();
                let (a, z) = (end(n.first_child_or_token()), end(n.last_child_or_token()));
                n.children_with_tokens().count() >= 2
                    && matches!((a.as_str(), z.as_str()), ("$", "$") | ("$$", "$$") | ("\\(", "\\)") | ("\\[", "\\]"))
            }
            _ => true,
        };
        if !ok {
            return false;
        }
    }
    true
}
/// the commands of the input have all the arguments they can take; none of them reaches over what follows or precedes it
pub fn complete(root: &SyntaxNode) -> bool {
    for n in root.descendants() {
        match n.kind() {
            ItemCmd => {
                let c = mitex_parser::syntax::CmdItem::cast(n.clone()).unwrap();
                let name = c.name_tok().unwrap().text()[1..].to_string();
                if ["newcommand", "renewcommand", "newenvironment", "iftypst", "iffalse", "else", "fi"].contains(&name.as_str()) {
                    return false;
                }
                if let Some(s) = DEFAULT_SPEC.get_cmd(&name) {
                    let args = c.arguments().count();
                    let ok = match &s.args {
                        ArgShape::Right { pattern: ArgPattern::FixedLenTerm { len } } => args == *len as usize,
                        ArgShape::Right { pattern: ArgPattern::None } => true,
                        _ => false,
                    };
                    if !ok {
                        return false;
                    }
                }
            }
            ItemAttachComponent => {
                // a script at the end still waits for its argument
                let k = n.last_child_or_token().map(|l| l.kind());
                if matches!(k, Some(TokenCaret | TokenUnderscore | TokenWhiteSpace | TokenLineBreak | TokenComment)) {
                    return false;
                }
            }
            ItemTypstCode | ItemBlockComment => return false,
            // \left and \right need a delimiter
            ClauseLR if n.children_with_tokens().count() < 2 => return false,
            _ => {}
        }
    }
    true
}
/// the arguments that are read as text (labels, paths, colours) are plain words
pub fn plain_raw(root: &SyntaxNode) -> bool {
    for n in root.descendants() {
        if n.kind() == ItemCmd {
            let c = mitex_parser::syntax::CmdItem::cast(n.clone()).unwrap();
            let name = c.name_tok().unwrap().text()[1..].to_string();
            if ["label", "includegraphics", "color", "textcolor", "colorbox"].contains(&name.as_str()) {
                let k = if name == "textcolor" || name == "colorbox" { 1 } else { 9 };
                for a in c.arguments().take(k) {
                    let t = a.text().to_string();
                    let t = t.trim();
                    let t = if t.starts_with('{') && t.ends_with('}') || t.len() > 1 && t.starts_with('[') && t.ends_with(']') { &t[1..t.len() - 1] } else { t };
                    if t.bytes().any(|b| b"[](){}$\"%\\".contains(&b)) {
                        return false;
                    }
                }
            }
        }
    }
    true
}
/// the input has no `\iftypst` (which is output as written) and ends no comment or escape half-way
pub fn ordinary(s: &str) -> bool {
    !s.contains("\\iftypst") && !s.ends_with('\\')
}
/// brackets, braces, parentheses and dollars of the output nest, escapes and strings aside
pub fn balanced(o: &str) -> bool {
    let b = o.as_bytes();
    let mut st: Vec<u8> = Vec::with_capacity(16);
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'\\' => i += 1,
            b'"' => {
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    i += 1;
                }
            }
            b'(' | b'[' | b'{' => st.push(b[i]),
            b')' if st.last() == Some(&b'(') => drop(st.pop()),
            b']' if st.last() == Some(&b'[') => drop(st.pop()),
            b'}' if st.last() == Some(&b'{') => drop(st.pop()),
            b')' | b']' | b'}' => return false,
            b'$' => {
                if st.last() == Some(&b'$') {
                    st.pop();
                } else {
                    st.push(b'$');
                }
            }
            _ => {}
        }
        i += 1;
    }
    st.is_empty()
}
pub fn balance(mode: bool, s: &str) {
    out(s.as_bytes());
    let t = parse(s, DEFAULT_SPEC.clone());
    if !closed(&t) || !plain_raw(&t) || s.contains("\\iftypst") {
        return;
    }
    if let Ok(o) = conv(mode, s) {
        out(o.as_bytes());
        cover(0);
        check(balanced(&o), "the output of a closed input is not closed");
    }
}
/// any n tokens inside a context
pub fn h_balance(n: u64, mode: u64, pre: u64, _d: u64) {
    let mut b = B::new().s(CTX2[pre as usize].0);
    for _ in 0..n {
        let a = atom();
        if a.contains("\\f}") || a == "\\f" {
            return;
        }
        b = b.s(a);
    }
    b = b.s(CTX2[pre as usize].1);
    balance(mode == 1, b.str());
}
pub const CTX2: &[(&str, &str)] = &[
    ("", ""),
    ("\\begin{tabular}{lc}a&", "\\end{tabular}b"),
    ("\\begin{figure}\\caption{a}", "\\end{figure}b"),
    ("\\begin{itemize}\\item", "\\end{itemize}b"),
    ("\\textbf{", "}b"),
    ("$\\left(", "\\right)$"),
    ("$$\\begin{matrix}a", "\\end{matrix}$$"),
    ("\\frac{", "}{a}"),
    ("\\textcolor{red}{", "}b"),
    ("{\\color{red}", "}b"),
    ("\\begin{aligned}", "\\end{aligned}"),
    ("\\begin{cases}", "\\end{cases}"),
    ("$\\text{", "}$"),
    ("\\sqrt[", "]{a}"),
    ("x^{", "}_b'"),
    ("\\begin{table}\\begin{tabular}{c}", "\\end{tabular}\\end{table}"),
    ("\\newcommand{\\g}[1]{a#1}\\g{", "}"),
];

/// What a document means does not depend on what was written before it:
/// converting `A & P` is converting `A`, then `& P`.
pub fn h_local(n: u64, mode: u64, pre: u64, post: u64) {
    let text = mode == 1;
    let mut b = B::new().s(CTX2[pre as usize].0);
    for _ in 0..n {
        b = b.s(atom());
    }
    let a = b.s(CTX2[pre as usize].1);
    out(&a.0);
    if a.0.contains(&b'#') || a.str().contains("newcommand") || a.str().contains("newenv") || a.str().contains("\\fi") || a.str().contains("\\if") || a.str().contains("\\f}") {
        return;
    }
    if a.0.ends_with(b"\\") {
        return;
    }
    let t = parse(a.str(), DEFAULT_SPEC.clone());
    if !closed(&t) || !complete(&t) {
        return;
    }
    let p = if text { PROBE_T } else { PROBE_M }[post as usize];
    let whole = B::new().b(&a.0).s(p);
    match (conv(text, a.str()), conv(text, whole.str()), conv(text, p)) {
        (Ok(x), Ok(w), Ok(y)) => {
            out(w.as_bytes());
            let want = B::new().s(&x).s(&y);
            cover(0);
            check_same(w.as_bytes(), &want.0, "a conversion depends on what stands before");
        }
        (Err(_), Err(_), _) => cover(1),
        (_, w, y) => {
            out(w.unwrap_or_else(|e| e).as_bytes());
            out(y.unwrap_or_else(|e| e).as_bytes());
            fail("a conversion depends on what stands before")
        }
    }
}
const PROBE_T: &[&str] = &[
    "\n& a, $x^2$ \\\\ {b} \\textbf{c}\\begin{itemize}\\item d\n e\\end{itemize}",
    "& $$\\frac{a}{b}$$\\begin{equation}a\\label{l}\\end{equation}",
    "&\\begin{figure}\\includegraphics{a}\\label{m}\\end{figure}\\begin{tabular}{c}a & b\\\\\\end{tabular}~x",
    "&\\begin{quote}a \\\\ \\end{quote}\\begin{matrix}a&b\\\\c\\end{matrix} f\n g",
];
const PROBE_M: &[&str] = &[
    "& x^2 {a \\\\ b} \\\\ \\alpha\n y",
    "&\\begin{matrix}a&b\\\\c\\end{matrix}\\text{d $x$}",
    "&\\begin{cases}a&b\\\\c\\end{cases}\\textbf{a}\\substack{a\\\\b}\\sqrt[3]{2}~",
    "&\\left(a\\right]\\textcolor{red}{b} c\\mathrm{d}",
];

/// one conversion leaves nothing behind for the next
pub fn h_again(n: u64, mode: u64, which: u64, _d: u64) {
    let text = mode == 1;
    let docs = if text { PROBE_T } else { PROBE_M };
    let defs = ["", "\\newcommand{\\f}[1]{<#1>}\\f{a}\\zz", "\\f{a}", "\\newenvironment{g}{a}{b}\\begin{g}c\\end{g}", "\\begin{g}\\end{g}", "\\iftrue a\\else b\\fi c", "\\iffalse a"];
    let d = if (which as usize) < defs.len() { defs[which as usize] } else { docs[which as usize - defs.len()] };
    let l = byte(&LOWER);
    let doc = B::new().b(&[l]).s(d).b(&[l]);
    let first = conv(text, doc.str());
    let mut b = B::new().s(["", "\\newcommand{\\f}", "\\newenvironment{g}"][pick(&[0usize, 1, 2])]);
    for _ in 0..n {
        let a = atom();
        assume(!(a == "\\f" || a == "{\\f}"));
        b = b.s(a);
    }
    out(&doc.0);
    out(&b.0);
    let _ = conv(flag(), b.str());
    let second = conv(text, doc.str());
    match (first, second) {
        (Ok(x), Ok(y)) | (Err(x), Err(y)) => {
            out(x.as_bytes());
            check_same(x.as_bytes(), y.as_bytes(), "the same input gives different results")
        }
        _ => fail("the same input is accepted once and refused once"),
    }
}

/// a history of n conversions under no, one or another specification: each is governed by its own
pub fn h_history(n: u64, plugin: u64, mode: u64, _d: u64) {
    let js = ["", r#"{"commands":{"f":{"kind":"cmd1"},"g":{"kind":"alias-sym","alias":"p"}}}"#, r#"{"commands":{"f":{"kind":"alias-sym","alias":"q"},"g":{"kind":"normal-env"}}}"#];
    // what the two documents convert to, in either mode, under each of them
    let want = [
        ["error: unknown command: \\f", "f[?];!", "q ?!", "error: unknown command: \\f", "f(? )! ", "q ? ! "],
        ["error: unknown environment: \\g", "error: unknown environment: \\g", "#g[?];!", "error: unknown environment: \\g", "error: unknown environment: \\g", "#g[? ];! "],
    ];
    let text_mode = mode == 1;
    for _ in 0..n {
        let (l, d, s) = (byte(&LOWER), split(choose(2), 2) as usize, split(choose(3), 3) as usize);
        let doc = if d == 0 { B::new().s("\\f{").b(&[l]).s("}!") } else { B::new().s("\\begin{g}").b(&[l]).s("\\end{g}!") };
        out(&doc.0);
        out(js[s].as_bytes());
        let own = || {
            if s == 0 {
                return None;
            }
            let Ok(j) = serde_json::from_str::<mitex_spec::JsonCommandSpec>(js[s]) else { fail("a specification in JSON was refused") };
            Some(mitex_spec::CommandSpec::from(j))
        };
        let r = if plugin == 1 {
            let b = own().map(|s| s.to_bytes()).unwrap_or_default();
            let r = if text_mode { super::wasm::convert_text(&doc.0, &b) } else { super::wasm::convert_math(&doc.0, &b) };
            r.map(|o| text(&o).to_string())
        } else if text_mode {
            mitex::convert_text(doc.str(), own())
        } else {
            mitex::convert_math(doc.str(), own())
        };
        let w: Vec<u8> = want[d][s + if text_mode { 0 } else { 3 }].bytes().map(|c| if c == b'?' { l } else { c }).collect();
        let ok = !w.starts_with(b"error");
        match r {
            Ok(o) if ok => {
                out(o.as_bytes());
                check_same(o.as_bytes(), &w, "a conversion is not governed by its own specification")
            }
            Err(e) if !ok => {
                out(e.as_bytes());
                check_same(e.as_bytes(), &w, "a refusal is not governed by the conversion's own specification")
            }
            Ok(o) | Err(o) => {
                out(o.as_bytes());
                fail("a conversion is not governed by its own specification")
            }
        }
    }
}

/// arguments that are read as text, not converted, and definitions
pub const RAW: &[(bool, &str, &str)] = &[
    (true, "\\label{a", "b}c"),
    (true, "\\begin{equation}x\\label{", "a}y\\end{equation}c"),
    (true, "\\includegraphics[width=1cm", ",height=2cm]{a}b"),
    (true, "\\includegraphics[", "width=1cm]{a}b"),
    (true, "\\includegraphics{a", "b}b"),
    (true, "\\textcolor[r", "b]{red}{a}b"),
    (true, "\\colorbox{r", "b}{a}b"),
    (true, "{\\color[r", "b]{red}b}"),
    (true, "\\begin{tabular}{l|", "c}a&b\\end{tabular}c"),
    (true, "\\begin{figure}\\caption{a\\label{b", "c}}\\end{figure}c"),
    (false, "\\newcommand{\\g", "}{a}\\g b"),
    (false, "\\newcommand{\\g}[1", "]{a#1}\\g b"),
    (false, "\\newenvironment{g", "}{a}{c}\\begin{g}b\\end{g}"),
    (true, "\\renewcommand", "{\\g}{a}\\g b"),
];

/// comments change nothing but themselves: a comment line dropped together with its line end
/// inside any document leaves the output of the rest
pub fn h_comment(n: u64, mode: u64, pre: u64, k: u64) {
    let text = mode == 1;
    // beyond the contexts: the places of h_flat_in
    // (100..) and arguments read as text (200..)
    let (text, cl, cr) = match pre {
        0..=99 => (text, CTX[pre as usize].0, CTX[pre as usize].1),
        100..=199 => (!IN[pre as usize - 100].0, IN[pre as usize - 100].2, IN[pre as usize - 100].3),
        _ => RAW[pre as usize - 200],
    };
    let mut a = B::new().s(cl);
    let mut z = B::new();
    let at = split(choose(n as u8 + 1), n as u8 + 1) as u64;
    for i in 0..n {
        let t = atom();
        if (pre == 4 || pre == 8) && t.contains("\\f") {
            return;
        }
        if i < at {
            a = a.s(t);
        } else {
            z = z.s(t);
        }
    }
    z = z.s(cr);
    if !ordinary(a.str()) || z.str().contains("\\iftypst") {
        return;
    }
    // what a comment may contain: anything but line ends
    let c = B::new().hn(&minus(range(0, 127), m(b"\n\r")), k);
    let e = pick(&["\n", "\r\n", "\r"]);
    let x = B::new().b(&a.0).s("%").b(&c.0).s(e).b(&z.0);
    let y = B::new().b(&a.0).s("%").s(e).b(&z.0);
    out(&x.0);
    out(&y.0);
    match (conv(text, x.str()), conv(text, y.str())) {
        (Ok(p), Ok(q)) => {
            out(p.as_bytes());
            check_same(p.as_bytes(), q.as_bytes(), "the words of a comment reach the output")
        }
        (Err(p), Err(q)) => {
            let _ = (p, q);
            cover(1)
        }
        (Ok(p), Err(q)) | (Err(q), Ok(p)) => {
            out(p.as_bytes());
            out(q.as_bytes());
            fail("the words of a comment decide whether the document converts")
        }
    }
}

/// `\( \)` is `$ $`, `\[ \]` is `$$ $$`
pub fn h_delims(n: u64, mode: u64, ctx: u64, disp: u64) {
    let text = mode == 1;
    let mut b = B::new();
    for _ in 0..n {
        let a = atom();
        assume(!a.contains("$") && !a.contains("\\f") && !a.starts_with("\\(") && !a.starts_with("\\)") && !a.starts_with("\\[") && !a.starts_with("\\]"));
        b = b.s(a);
    }
    if b.str().contains("newcommand") || b.str().contains("newenv") || b.str().contains("\\fi") || b.str().contains("\\if") || b.0.ends_with(b"\\") || b.0.is_empty() {
        return;
    }
    let t = parse(b.str(), DEFAULT_SPEC.clone());
    if !closed(&t) || !complete(&t) {
        return;
    }
    let (l, r) = if ctx >= 100 {
        (IN[ctx as usize - 100].2, IN[ctx as usize - 100].3)
    } else {
        [
            ("", ""), ("a ", " b"), ("\\textbf{", "}"), ("\\begin{itemize}\\item ", "\\end{itemize}"), ("\\begin{tabular}{c}", "\\\\\\end{tabular}"), ("\\textbf ", " b"), ("\\begin{quote}\\textit", " b\\end{quote}"),
            ("\\begin{tabular}{c}a&\\footnote", "\\\\b\\end{tabular}"), ("\\newcommand{\\g}[1]{#1 {#1}}\\g{", "}b"),
        ][ctx as usize]
    };
    let text = if ctx >= 100 { !IN[ctx as usize - 100].0 } else { text };
    let [p, q, d] = if disp == 1 { ["\\[", "\\]", "$$"] } else { ["\\(", "\\)", "$"] };
    let x = B::new().s(l).s(p).b(&b.0).s(q).s(r);
    let y = B::new().s(l).s(d).b(&b.0).s(d).s(r);
    out(&x.0);
    match (conv(text, x.str()), conv(text, y.str())) {
        (Ok(v), Ok(w)) => {
            out(v.as_bytes());
            cover(0);
            check_same(v.as_bytes(), w.as_bytes(), "the two ways to write a formula differ")
        }
        (Err(v), Err(w)) => check(!v.is_empty() && !w.is_empty(), "a refusal without words"),
        (Ok(v), Err(w)) | (Err(w), Ok(v)) => {
            out(v.as_bytes());
            out(w.as_bytes());
            fail("the two ways to write a formula differ")
        }
    }
}
pub fn _atoms() -> usize {
    ATOMS.len()
}

/// (text mode, a document, its image with `@` where the caller's names differ, its image where every name is a command of one
/// argument, what is refused where the specification is empty), `Q` a letter
type Governed = (bool, &'static str, &'static str, &'static str, &'static str);
const GOVERNED: &[Governed] = &[
    (false, "\\left\\langle Q\\right\\rangle", "lr(@chevron.l  Q @chevron.r )", "lr(u  Q u )", "command: \\langle"),
    (false, "Q^\\langle", "Q ^(@chevron.l )", "Q ^(u())", "command: \\langle"),
    (true, "Q \\rangle.", "Q @chevron.r .", "Q u[.];", "command: \\rangle"),
    (false, "\\operatorname*{Q}", "@operatornamewithlimits(Q )", "u(\\*)Q ", "command: \\operatorname"),
    (false, "\\frac{Q}b", "@frac(Q ,b )", "u(Q )b ", "command: \\frac"),
    (false, "\\displaystyle Q{b}c", "@mitexdisplay( Q b ,c )", "u(Q )b c ", "command: \\displaystyle"),
    (false, "Q\\over b", "@frac(Q , b )", "Q u(b )", "command: \\over"),
    (false, "Q\\limits_b", "@limits(Q )_(b )", "Q u()_(b )", "command: \\limits"),
    (false, "\\sqrt[Q]{b}", "@mitexsqrt(\\[Q \\],b )", "u(\\[)Q \\]b ", "command: \\sqrt"),
    (false, "\\begin{matrix}Q&b\\\\c\\end{matrix}", "@matrix(Q zws ,b zws ;c )", "", "environment: \\matrix"),
    (false, "\\begin{cases}Q&b\\\\c\\end{cases}", "@cases(Q &b ,c )", "", "environment: \\cases"),
    (false, "\\begin{array}{c}Q\\end{array}", "@mitexarray(arg0: c ,Q )", "", "environment: \\array"),
    (true, "\\begin{equation}Q\\label{l}\\end{equation}", "$ @aligned(Q ) $<l>", "", "environment: \\equation"),
    (true, "\\section{Q}b", "#@heading(level: 1)[Q];b", "u[Q];b", "command: \\section"),
    (true, "\\begin{quote}Q\\end{quote}", "#@quote(block: true)[Q];", "", "environment: \\quote"),
    (true, "\\begin{figure}Q\\caption{b}\\end{figure}", "#@figure(caption: [b],)[Q];", "", "environment: \\figure"),
    (true, "\\begin{tabular}{c}Q\\end{tabular}", "#@table(stroke: none,\ncolumns: 1,\nalign: (center, ),\n\n[Q],\n);", "", "environment: \\tabular"),
    (true, "\\begin{itemize}\\item Q\\end{itemize}", "\n-  Q", "", "environment: \\itemize"),
    (true, "\\textcolor{Q}{b}", "#@colortext(none, [Q])[b];", "u(none, [Q])[];b", "command: \\textcolor"),
    (true, "$\\alpha Q$", "#math.equation(block: false, $@alpha  Q $);", "#math.equation(block: false, $u(Q )$);", "command: \\alpha"),
];
const NAMES: &[&str] = &[
    "langle", "rangle", "operatorname", "operatorname*", "frac", "displaystyle", "over", "limits", "sqrt", "matrix", "cases", "array", "equation",
    "section", "quote", "figure", "tabular", "itemize", "item", "label", "caption", "textcolor", "alpha",
];
const OTHER: [&str; 3] = ["", "v", "wwwwwwwwwwwwwwwwwwwwwwww"];
/// 1 and 2: the built-in entries with something in front of their aliases, 3: nothing, 4: commands of one argument
fn governing(k: u64) -> CommandSpec {
    let mut l = Vec::new();
    for (n, i) in super::shapes::table() {
        if k == 3 || !NAMES.contains(&n.as_str()) || k == 4 && n.ends_with('*') {
            continue;
        }
        let mut i = i.clone();
        if let I::Cmd(CmdShape { alias, .. }) | I::Env(EnvShape { alias, .. }) = &mut i {
            let a = alias.clone().unwrap_or_else(|| n.clone());
            let (hash, a) = if let Some(a) = a.strip_prefix('#') { ("#", a) } else { ("", a.as_str()) };
            *alias = Some(format!("{hash}{}{a}", OTHER[k as usize % 3]));
        }
        if k == 4 {
            i = super::shapes::cmd(ArgShape::Right { pattern: ArgPattern::FixedLenTerm { len: 1 } }, "u");
        }
        l.push((n.as_str(), i));
    }
    super::shapes::spec(l)
}
/// two documents in turn (`same`: the same one twice), each under one of five specifications
pub fn h_governed(first: u64, plugin: u64, same: u64, _d: u64) {
    let n = GOVERNED.len() as u8;
    let l = byte(&LOWER);
    for turn in 0..2 {
        let d = if turn == 0 || same == 1 { first as usize } else { split(choose(n), n) as usize };
        let (text_mode, src, img, img4, refusal) = GOVERNED[d];
        let k = split(choose(5), 5) as u64;
        let doc: Vec<u8> = src.bytes().map(|c| if c == b'Q' { l } else { c }).collect();
        out(&doc);
        let own = if k == 0 { None } else { Some(governing(k)) };
        let mut want = B::new();
        for c in if k == 4 { img4 } else { img }.bytes() {
            want = match c {
                b'Q' => want.b(&[l]),
                b'@' => want.s(OTHER[k as usize % 3]),
                c => want.b(&[c]),
            };
        }
        let refused = k == 3 || k == 4 && img4.is_empty();
        let r = if plugin == 1 {
            let b = own.map(|s| s.to_bytes()).unwrap_or_default();
            let r = if text_mode { super::wasm::convert_text(&doc, &b) } else { super::wasm::convert_math(&doc, &b) };
            r.map(|o| text(&o).to_string())
        } else if text_mode {
            mitex::convert_text(text(&doc), own)
        } else {
            mitex::convert_math(text(&doc), own)
        };
        match r {
            Ok(o) if !refused => {
                out(o.as_bytes());
                check_same(o.as_bytes(), &want.0, "a conversion is not governed by its own specification")
            }
            Err(e) if refused => {
                out(e.as_bytes());
                check_same(e.as_bytes(), &B::new().s("error: unknown ").s(refusal).0, "a refusal is not governed by the conversion's own specification")
            }
            Ok(o) | Err(o) => {
                out(o.as_bytes());
                fail("a conversion is not governed by its own specification")
            }
        }
    }
}
