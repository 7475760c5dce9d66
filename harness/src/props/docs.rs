//! C19, C28, C29, C30: labels, lists, tables, images and colours.
use super::sym::*;
use super::total::conv;

const WORD: Mask = or(LETTER, DIGIT);
const LABEL: Mask = or(or(LETTER, DIGIT), m(b":.-_"));

/// a piece of a formula: source that takes nothing from what follows
fn math(k: u8) -> Vec<u8> {
    let c = byte(&LOWER);
    let b = B::new();
    match k {
        0 => b,
        1 => b.b(&[c]).s(" "),
        2 => b.s("\\frac{").b(&[c]).s("}{b}"),
        3 => b.b(&[c]).s("^2"),
        4 => b.s("\\begin{matrix}").b(&[c]).s("&b\\\\c\\end{matrix}"),
        5 => b.s("\\left(").b(&[c]).s("\\right)"),
        6 => b.s("{").b(&[c]).s("}"),
        7 => b.s("\\text{").b(&[c]).s(" $y$}"),
        8 => b.b(&[c]).s("&b\\\\"),
        9 => b.s("\\begin{cases}").b(&[c]).s("&b\\\\c\\end{cases}"),
        10 => b.s("\\textcolor{red}{").b(&[c]).s("}"),
        _ => b.s("%").b(&[c]).s("\n"),
    }
    .0
}
/// a piece of running text
fn prose(k: u8) -> Vec<u8> {
    let c = byte(&LOWER);
    let b = B::new();
    match k {
        0 => b,
        1 => b.b(&[c]).s(" b,"),
        2 => b.s("$").b(&[c]).s("$"),
        3 => b.s("\\textbf{").b(&[c]).s("}"),
        4 => b.s("$$").b(&[c]).s("$$"),
        5 => b.s("{").b(&[c]).s("}"),
        6 => b.s("\\begin{tabular}{l}").b(&[c]).s("\\\\\\end{tabular}"),
        7 => b.s("\\includegraphics[width=1cm]{").b(&[c]).s("}"),
        8 => b.s("\\begin{quote}").b(&[c]).s("\\end{quote}"),
        9 => b.s("\\begin{itemize}\\item ").b(&[c]).s("\\end{itemize}"),
        10 => b.s("\\textcolor{red}{").b(&[c]).s("}"),
        _ => b.s("\\begin{equation}").b(&[c]).s("\\end{equation}"),
    }
    .0
}
/// (before, opening, closing, after, is the inside a formula)
const PLACE: &[(&str, &str, &str, &str, bool)] = &[
    ("", "\\begin{equation}", "\\end{equation}", "", true),
    ("a ", "\\begin{align}x&", "\\end{align}", "\n b", true),
    ("", "\\begin{figure}", "\\end{figure}", " b", false),
    ("", "\\begin{table}\\caption{w}\\begin{tabular}{c}a\\end{tabular}", "\\end{table}", "", false),
    ("\\begin{figure}x", "\\begin{equation}", "\\end{equation}", "\\caption{w}\\end{figure}z", true),
    ("\\begin{itemize}\\item ", "\\begin{equation}", "\\end{equation}", " y\\end{itemize}", true),
    ("\\begin{quote}", "\\begin{equation}", "\\end{equation}", "z\\end{quote}", true),
    ("", "\\begin{equation}x \\begin{aligned}y", "z\\end{aligned} v\\end{equation}", " u", true),
    ("", "\\begin{figure}x\\caption{w ", "}y\\end{figure}", " u", false),
    ("", "\\begin{equation}x{a", "b}c\\end{equation}", "", true),
    ("\\begin{equation}x\\end{equation}", "\\begin{equation}", "\\end{equation}", "\\begin{equation}y\\end{equation}", true),
    ("\\textbf{v}", "\\begin{gather}", "\\end{gather}", "$x$", true),
    ("", "\\begin{figure}x\\textbf{w ", "}y\\end{figure}", " u", false),
    ("", "\\begin{equation}\\frac{x ", "y}{z}\\end{equation}", " u", true),
    ("", "\\begin{equation}x_{y ", "}z\\end{equation}", " u", true),
    ("", "\\begin{equation}\\left(y ", "\\right)z\\end{equation}", " u", true),
    ("", "\\begin{figure}{w ", "}y\\end{figure}", " u", false),
    ("", "\\begin{equation}\\begin{cases}y&", "z\\\\x\\end{cases} v\\end{equation}", " u", true),
    // where there is nothing to label, the label stays where it was written
    ("a ", "", "", " b", false),
    ("\\section{a ", "", "", "b}c", false),
    ("\\begin{itemize}\\item a", "", "", " b\\end{itemize}c", false),
    ("\\begin{quote}a", "", "", " b\\end{quote}", false),
    ("{a ", "", "", " b}c", false),
    ("\\begin{enumerate}\\item a", "", "", " b\\end{enumerate}c", false),
    ("\\begin{figure}x\\begin{enumerate}\\item a", "", "", " b\\end{enumerate}y\\end{figure}c", false),
    ("\\begin{table}x\\begin{itemize}\\item a", "", "", " b\\end{itemize}y\\end{table}c", false),
    ("\\begin{enumerate}\\item \\textbf{a", "", "", " b}\\end{enumerate}c", false),
    ("\\begin{enumerate}\\item a\\begin{itemize}\\item b\\end{itemize} ", "", "", " b\\end{enumerate}c", false),
    // environments in a formula
    ("b ", "$x\\begin{matrix}y&", "\\end{matrix}v$", " u", true),
    ("b ", "\\[\\begin{aligned}y", "\\end{aligned}\\]", " u", true),
    ("\\begin{figure}", "\\(\\begin{cases}", "\\end{cases}x\\)", "b\\caption{w}\\end{figure}", true),
    ("\\begin{equation}\\text{b ", "$\\begin{matrix}", "\\end{matrix}$", "}\\end{equation}z", true),
];
pub const PLACES: u64 = PLACE.len() as u64;

fn label(n: u64) -> (Vec<u8>, Vec<u8>) {
    let mut l = vec![byte(&LETTER)];
    for _ in 1..n {
        l.push(byte(&LABEL));
    }
    // a script needs something to apply to, even there
    assume(l[l.len() - 1] != b'_');
    // the braces of a name are its own
    let (a, z, l) = match split(choose(8), 8) {
        6 => ("\\label{%}\n ", "%\\x{\n}", l),
        7 => ("\\label{\\iffalse}\\fi%\n", "\\iffalse<\\else\\fi}", l),
        4 => ("\\label{", "}", [b"{", &l[..], b"}"].concat()),
        5 => ("\\label{", "}", [&l[..], b"{", &[byte(&WORD)], b"}"].concat()),
        k => {
            let (a, z) = [("\\label{", "}"), ("\\label{ ", "\t}"), ("\\label {", "}"), ("\\label%c\n{", "}")][k as usize];
            (a, z, l)
        }
    };
    (B::new().s(a).b(&l).s(z).0, l)
}
/// `\label` anywhere inside something numbered lands right behind it, and nothing else changes
pub fn h_label(n: u64, place: u64, k: u64, _d: u64) {
    let (pre, open, close, post, is_math) = PLACE[place as usize];
    let (src, name) = label(n);
    let piece = |lo: u8| {
        let k = lo + split(choose(6), 6);
        if is_math {
            math(k)
        } else {
            prose(k)
        }
    };
    let a = piece(if k & 1 == 0 { 0 } else { 6 });
    let z = piece(if k & 2 == 0 { 0 } else { 6 });
    // where the label stays where it is written, only what it stands in matters
    if open.is_empty() && (is_list(&a) || is_list(&z)) {
        return;
    }
    // without the label between them the marks of two formulas would be one
    if a.ends_with(b"$") && z.starts_with(b"$") {
        return;
    }
    let with = B::new().s(pre).s(open).b(&a).b(&src).b(&z).s(close).s(post);
    let without = if open.is_empty() { B::new().s(pre).b(&a).s("Q").b(&z).s(post) } else { B::new().s(pre).s(open).b(&a).b(&z).s(close).s("Q").s(post) };
    out(&with.0);
    out(&without.0);
    let (Ok(x), Ok(y)) = (conv(true, with.str()), conv(true, without.str())) else { fail("a document with a label was refused") };
    out(x.as_bytes());
    let mut want = Vec::with_capacity(y.len() + 8);
    for c in y.bytes() {
        if c == b'Q' {
            want.push(b'<');
            want.extend_from_slice(&name);
            want.push(b'>');
        } else {
            want.push(c);
        }
    }
    check_same(x.as_bytes(), &want, "a label does not stand right behind what it was written in, or changes something else");
}
fn is_list(a: &[u8]) -> bool {
    a.starts_with(b"\\begin{i")
}
/// a figure and an equation in it, each with a label of its own
pub fn h_label2(n: u64, order: u64, kind: u64, _d: u64) {
    let (l1, n1) = label(n);
    let (l2, n2) = label(n);
    let c = byte(&LOWER);
    // (opening of the outer, of the inner one, closing of the inner one, what stands behind it, of the outer one)
    let (outer, open, close, after, end) = [
        ("\\begin{figure}y", "\\begin{equation}", "\\end{equation}", "\\caption{w}", "\\end{figure}"),
        ("\\begin{figure}y", "\\begin{table}", "\\end{table}", "\\caption{w}", "\\end{figure}"),
        ("\\begin{figure}y", "$u\\begin{matrix}v&", "\\end{matrix}w$", "\\caption{w}", "\\end{figure}"),
        ("\\begin{table}\\caption{w ", "\\[\\begin{cases}v&", "\\end{cases}w\\]", " y}x", "\\end{table}"),
        ("\\begin{align}y", "\\text{a $\\begin{matrix}", "\\\\u\\end{matrix}$", "b}&z", "\\end{align}"),
        ("\\begin{figure}\\textbf{y", "$$\\begin{aligned}v&", "\\end{aligned}$$", "}", "\\end{figure}"),
        ("$x\\begin{matrix}y&", "\\text{a $\\begin{cases}", "\\end{cases}$", "}\\end{matrix}", "z$"),
    ][kind as usize];
    let inner = |b: B, l: &[u8], q: &str| b.s(open).b(&[c]).b(l).s("x").s(close).s(q).s(after);
    let doc = |a: &[u8], b: &[u8], q: &str, r: &str| {
        let s = B::new().s(outer);
        let s = if order == 0 { inner(s.b(a), b, r) } else { inner(s, b, r).b(a) };
        s.s(end).s(q).s("z")
    };
    let with = doc(&l1, &l2, "", "");
    let without = doc(b"", b"", "Q", "R");
    out(&with.0);
    let (Ok(x), Ok(y)) = (conv(true, with.str()), conv(true, without.str())) else { fail("a document with labels was refused") };
    out(x.as_bytes());
    let mut want = Vec::with_capacity(y.len() + 16);
    for k in y.bytes() {
        let l = match k {
            b'Q' => &n1,
            b'R' => &n2,
            _ => {
                want.push(k);
                continue;
            }
        };
        want.push(b'<');
        want.extend_from_slice(l);
        want.push(b'>');
    }
    check_same(x.as_bytes(), &want, "two labels do not stand behind what they were written in");
}

/// any sequence of n list operations
pub fn h_list(n: u64, ctx: u64, _c: u64, _d: u64) {
    let (pre, post, ipre, ipost) = [("", "", "", ""), ("a\n", "\nz", "a\n", "\nz"), ("\\begin{quote}", "\\end{quote}", "#quote(block: true)[", "];"), ("{\\textbf{b} ", "}", "#strong[b]; ", "")][ctx as usize];
    let mut src = B::new().s(pre);
    let mut want = B::new().s(ipre);
    // the open environments: itemize, enumerate or something else
    let mut open: Vec<u8> = Vec::with_capacity(8);
    // a line has just begun: its blanks do not count
    let mut fresh = pre.is_empty();
    let names = ["itemize", "enumerate", "quote"];
    let start = 1 + split(choose(2), 2);
    let mut op = 7 + start;
    for i in 0..=n + 1 {
        if i == 1 {
            op = 0
        } else if i > 1 {
            op = split(choose(12), 12)
        }
        // the spaces each line of the innermost list starts with
        let deep = 2 * open.iter().filter(|k| **k < 2).count();
        let indent = |mut b: B, k: usize| {
            for _ in 0..k {
                b = b.s(" ");
            }
            b
        };
        let top = open.last().copied();
        match op {
            0 => {
                // a marker needs a list around it
                let k = match top {
                    Some(k) if k < 2 => k,
                    _ => return,
                };
                src = src.s("\\item ");
                want = indent(want.s("\n"), deep - 2).s(["- ", "+ "][k as usize]).s(" ");
                fresh = false;
            }
            1 => {
                let c = byte(&LOWER);
                src = src.b(&[c]);
                want = want.b(&[c]);
                fresh = false;
            }
            2 => {
                // line ends in a row are one
                if src.0.ends_with(b"\n") {
                    return;
                }
                src = src.s("\n");
                want = indent(want.s("\n"), deep);
                fresh = true;
            }
            3 => {
                src = src.s("  ");
                if !fresh {
                    want = want.s("  ");
                }
                // blanks in a row are one run
                if src.0.len() > 2 && src.0[src.0.len() - 3] == b' ' {
                    return;
                }
                fresh = false;
            }
            4 => {
                if src.0.ends_with(b"$") {
                    return;
                }
                src = src.s("$a$");
                want = want.s("#math.equation(block: false, $a $);");
                fresh = false;
            }
            5 => {
                src = src.s("%c\n");
                want = indent(want.s("\n"), deep);
                fresh = true;
            }
            6 => {
                src = src.s("{[\\}}");
                want = want.s("\\[\\} ");
                fresh = false;
            }
            7 => {
                src = src.s("\\begin{equation}a\n  b\\end{equation}");
                want = indent(want.s("$ aligned(a \n"), deep).s("b ) $");
                fresh = false;
            }
            8..=10 => {
                src = src.s("\\begin{").s(names[op as usize - 8]).s("}");
                open.push(op - 8);
                if op == 10 {
                    want = want.s("#quote(block: true)[");
                }
                fresh = false;
            }
            _ => {
                match open.pop() {
                    None => return,
                    Some(k) => {
                        src = src.s("\\end{").s(names[k as usize]).s("}");
                        if k == 2 {
                            want = want.s("];");
                            fresh = false;
                        }
                    }
                }
                if open.is_empty() {
                    return;
                }
            }
        }
    }
    while let Some(k) = open.pop() {
        src = src.s("\\end{").s(names[k as usize]).s("}");
        if k == 2 {
            want = want.s("];");
        }
    }
    src = src.s(post);
    want = want.s(ipost);
    out(&src.0);
    match conv(true, src.str()) {
        Ok(o) => {
            out(o.as_bytes());
            check_same(o.as_bytes(), &want.0, "a list does not convert to marked, indented lines")
        }
        Err(e) => {
            out(e.as_bytes());
            fail("a list was refused")
        }
    }
}
/// \item has no meaning outside a list
pub fn h_item(place: u64, mode: u64, _c: u64, _d: u64) {
    let (a, z) = [("", ""), ("a{", "}"), ("\\begin{quote}", "\\end{quote}"), ("\\begin{itemize}\\item a\\end{itemize}", ""), ("\\begin{itemize}\\item \\begin{quote}", "\\end{quote}\\end{itemize}"), ("\\begin{figure}", "\\end{figure}"), ("\\textbf{", "}"), ("\\begin{itemize}\\item $", "$\\end{itemize}")]
        [place as usize];
    let src = B::new().s(a).b(&[byte(&LOWER)]).s(" \\item ").b(&[byte(&WORD)]).s(z);
    out(&src.0);
    if place == 7 {
        return;
    }
    match conv(mode == 1, src.str()) {
        Ok(o) => {
            out(o.as_bytes());
            fail("\\item outside of a list is accepted")
        }
        Err(e) => check_same(e.as_bytes(), b"error: item command outside of itemize or enumerate", "the refusal of \\item does not say why"),
    }
}

/// a tabular of any n parts under any column specification of `cols` characters
pub fn h_table(n: u64, cols: u64, ctx: u64, _d: u64) {
    let (pre, post, ipre, ipost) = [("", "", "", ""), ("\\begin{table}\\centering ", "\\caption{c}\\end{table}", "#figure(caption: [c],)[ ", "];"), ("\\begin{itemize}\\item ", "\\end{itemize}", "\n-  ", ""), ("a\\textbf{b}", "d", "a#strong[b];", "d")][ctx as usize];
    let mut src = B::new().s(pre).s("\\begin{tabular}{");
    let (mut lines, mut al, mut count) = (B::new(), B::new(), 0u8);
    for _ in 0..cols {
        let c = pick(b"lcr|");
        src = src.b(&[c]);
        match c {
            b'|' => lines = lines.s("table.vline(stroke: .5pt, x: ").b(&[b'0' + count]).s("), "),
            _ => {
                count += 1;
                al = al.s(match c {
                    b'l' => "left, ",
                    b'c' => "center, ",
                    _ => "right, ",
                });
            }
        }
    }
    src = src.s("}");
    let mut want = B::new().s(ipre).s("#table(stroke: none,\ncolumns: ").b(&[b'0' + count]).s(",\nalign: (").b(&al.0).s("),\n").b(&lines.0).s("\n");
    let mut open = false;
    let ind = if ctx == 2 { "  " } else { "" };
    let mut fresh = false;
    // a name at the end, which a letter would continue
    let (mut name, mut rule, mut special) = (false, false, false);
    for _ in 0..n {
        let op = split(choose(11), 11);
        let c = byte(&LOWER);
        let put = |w: B, s: &[u8], open: &mut bool| {
            let w = if *open { w } else { w.s("[") };
            *open = true;
            w.b(s)
        };
        if op == 0 && name {
            return;
        }
        let after_rule = rule;
        rule = (4..=9).contains(&op) && (op < 8 || rule) || op == 3 && rule;
        name = (4..=7).contains(&op);
        match op {
            0 => {
                src = src.b(&[c]);
                want = put(want, &[c], &mut open);
                fresh = false;
            }
            1 => {
                src = src.s("&");
                want = want.s(if open { "], " } else { "[], " });
                open = false;
            }
            2 => {
                src = src.s("\\\\");
                want = want.s(if open { "],\n" } else { "[],\n" });
                open = false;
            }
            3 => {
                // rows of blanks are one
                if src.0.ends_with(b" ") {
                    return;
                }
                src = src.s(" ");
                if open && !fresh {
                    want = want.s(" ");
                }
                if open {
                    fresh = false;
                }
            }
            4..=7 => {
                // a rule stands before the row's first cell
                if open {
                    return;
                }
                let (s, w) = [("\\hline", ".5pt"), ("\\midrule", ".5pt"), ("\\toprule", "1pt"), ("\\bottomrule", "1pt")][op as usize - 4];
                src = src.s(s);
                want = want.s("table.hline(stroke: ").s(w).s("),\n");
            }
            8 => {
                // line ends in a row are one
                if src.0.ends_with(b"\n") {
                    return;
                }
                src = src.s("\n");
                if open {
                    want = want.s("\n").s(ind);
                    fresh = true;
                }
            }
            9 => {
                src = src.s("%").b(&[c, byte(&range(32, 126))]).s("\n");
                if open {
                    want = want.s("\n").s(ind);
                    fresh = true;
                }
            }
            _ => match split(choose(4), 4) {
                3 => {
                    // other things a cell may begin with, one of them in a table
                    if std::mem::replace(&mut special, true) {
                        return;
                    }
                    let (s, w) = pick(&[
                        ("~", "\\~"), ("é", "é"), ("\"", "\\\""), ("<", "\\<"), ("{}", ""), ("[2]", "\\[2\\]"), ("(", "\\("), ("-", "-"), ("/", "\\/"), ("\\_", "\\_ "), ("\\%", "% "),
                        ("\\ref{k}", "#mitexref[k];"), ("\\textit{u}", "#emph[u];"), ("#", "\\#"), ("\\begin{tabular}{l}b\\end{tabular}", "#table(stroke: none,\ncolumns: 1,\nalign: (left, ),\n\n[b],\n);"),
                    ]);
                    if after_rule && s == "[2]" {
                        return;
                    }
                    src = src.s(s);
                    want = put(want, w.as_bytes(), &mut open);
                    fresh = false;
                }
                0 => {
                    src = src.s("\\textbf{").b(&[c]).s("&}");
                    want = put(want, b"#strong[", &mut open).b(&[c]).s("&];");
                    fresh = false;
                }
                1 => {
                    src = src.s("$\\begin{matrix}").b(&[c]).s("&2\\\\3\\end{matrix}$");
                    want = put(want, b"#math.equation(block: false, $mat(delim: #none, ", &mut open);
                    return;
                }
                _ => {
                    src = src.s("{").b(&[c]).s("}");
                    want = put(want, &[c], &mut open);
                    fresh = false;
                }
            },
        }
    }
    if open {
        want = want.s("],\n");
    }
    src = src.s("\\end{tabular}").s(post);
    want = want.s(");").s(ipost);
    out(&src.0);
    match conv(true, src.str()) {
        Ok(o) => {
            out(o.as_bytes());
            check_same(o.as_bytes(), &want.0, "a table does not have the columns, rules and cells that were written")
        }
        Err(e) => {
            out(e.as_bytes());
            fail("a table was refused")
        }
    }
}
/// a column specification of `k` letters, three of lcr| and two letters
pub fn h_columns(k: u64, body: u64, _c: u64, _d: u64) {
    let (first, last) = pick(&[("", "rc"), ("|", "r|"), ("||", "c")]);
    let mut spec = first.as_bytes().to_vec();
    spec.resize(k as usize, b'l');
    for _ in 0..3 {
        spec.push(pick(b"lcr|"));
    }
    // blanks and comments stand between columns
    spec.extend_from_slice(pick(&[&b""[..], b" ", b"%|l\n ", b"\n"]));
    spec.extend_from_slice(last.as_bytes());
    let c = byte(&LOWER);
    let (mut al, mut lines, mut n) = (String::new(), String::new(), 0);
    for (i, x) in spec.iter().enumerate() {
        match x {
            // (the comment)
            b'%' => continue,
            _ if i > 1 && spec[i - 1] == b'%' || i > 2 && spec[i - 2] == b'%' => {}
            b'|' => lines += &format!("table.vline(stroke: .5pt, x: {n}), "),
            b' ' | b'\n' => {}
            _ => {
                n += 1;
                al += match x {
                    b'l' => "left, ",
                    b'c' => "center, ",
                    _ => "right, ",
                }
            }
        }
    }
    let mut src = B::new().s("\\begin{tabular}{").b(&spec).s("}");
    let mut want = B::new().s(&format!("#table(stroke: none,\ncolumns: {n},\nalign: ({al}),\n{lines}\n"));
    for i in 0..body {
        src = src.s(if i > 0 { "&" } else { "" }).b(&[c]);
        want = want.s("[").b(&[c]).s(if i + 1 < body { "], " } else { "],\n" });
    }
    src = src.s("\\end{tabular}");
    want = want.s(");");
    out(&src.0);
    match conv(true, src.str()) {
        Ok(o) => {
            out(o.as_bytes());
            check_same(o.as_bytes(), &want.0, "a wide table does not have the columns and rules that were written")
        }
        Err(e) => {
            out(e.as_bytes());
            fail("a wide table was refused")
        }
    }
}
/// a name of n printable characters as what 0: the path of an image, 1..: a label
pub fn h_name(n: u64, what: u64, _c: u64, _d: u64) {
    // not those that end a name, start a command, formula, comment, macro argument or script
    let ok = minus(range(0x20, 0x7e), m(b"\\{}%$^_"));
    let mut x = B::new();
    for i in 0..n {
        x = x.b(&[byte(&if i == 0 || i + 1 == n { minus(ok, m(b" ")) } else { ok })]);
    }
    let (pre, post, ipre, ipost) = [
        ("a \\includegraphics{", "} b", "a #image(\"", "\") b"),
        ("\\begin{equation}x\\label{", "}y\\end{equation}", "$ aligned(x y ) $<", ">"),
        ("\\begin{figure}a\\caption{b\\label{", "}}\\end{figure}c", "#figure(caption: [b],)[a];<", ">c"),
        ("a \\label{", "} b", "a <", "> b"),
        ("\\begin{align}x&\\frac{\\label{", "}a}{b}\\end{align}", "$ aligned(x &frac(a ,b )) $<", ">"),
    ][what as usize];
    let src = B::new().s(pre).b(&x.0).s(post);
    let want = B::new().s(ipre).b(&x.0).s(ipost);
    out(&src.0);
    match conv(true, src.str()) {
        Ok(o) => {
            out(o.as_bytes());
            check_same(o.as_bytes(), &want.0, "a path or label is not kept as it was written")
        }
        Err(e) => {
            out(e.as_bytes());
            fail("a path or label was refused")
        }
    }
}
/// a column the converter does not know is refused, by name
pub fn h_column(n: u64, mode: u64, _c: u64, _d: u64) {
    let known = m(b"lcr|");
    let odd = byte(&minus(or(WORD, m(b"!:;.*@")), known));
    let at = split(choose(n as u8 + 1), n as u8 + 1) as u64;
    let mut src = B::new().s("a \\begin{tabular}{");
    for i in 0..=n {
        src = if i == at { src.b(&[odd]) } else { src.b(&[pick(b"lc|")]) };
    }
    src = src.s("}x\\end{tabular}");
    out(&src.0);
    match conv(mode == 1, src.str()) {
        Ok(o) => {
            out(o.as_bytes());
            fail("a column of unknown kind is accepted")
        }
        Err(e) => check_same(e.as_bytes(), &B::new().s("error: unknown alignment: ").b(&[odd]).0, "the refusal does not name the column"),
    }
}

/// \includegraphics with n options
pub fn h_image(n: u64, ctx: u64, _c: u64, _d: u64) {
    let (pre, post, ipre, ipost) = [("", "", "", ""), ("a ", " b", "a ", " b"), ("\\begin{figure}", "\\caption{c}\\end{figure}", "#figure(caption: [c],)[", "];"), ("$x", "$", "#math.equation(block: false, $x ", "$);")][ctx as usize];
    let mut src = B::new().s(pre).s("\\includegraphics");
    let mut want = B::new().s(ipre).s("#image(");
    if n > 0 {
        src = src.s("[");
    }
    let (a, z) = pick(&[("", ""), ("%c,=]\n ", ""), ("", " %width=9cm,\n")]);
    for i in 0..n {
        if i > 0 {
            src = src.s(",");
        }
        let key = pick(&["width", "height", "scale", "x", "keepaspectratio"]);
        // any other key of three letters, and those made of a kept one
        let other = [byte(&LOWER), byte(&LOWER), byte(&LOWER)];
        let key = match key {
            "x" => text(&other),
            "scale" => pick(if n == 1 { &["scale", "totalheight", "widths", "eight", "Width", "HEIGHT"] } else { &["scale", "eight"] }),
            k => k,
        };
        let kept = key == "width" || key == "height";
        src = src.s(a).s(key).s(z);
        if key == "keepaspectratio" {
            continue;
        }
        src = src.s("=").s(a);
        let d = byte(&DIGIT);
        let e = byte(&DIGIT);
        let forms = if n == 1 { 6 } else { 4 };
        let val = match split(choose(forms), forms) {
            5 => {
                src = src.b(&[d]).s("\\textwidth");
                B::new().b(&[d]).s(" * 100%")
            }
            4 => {
                // as written
                let v = B::new().b(&[d]).s("é");
                src = src.b(&v.0);
                v
            }
            0 => {
                src = src.b(&[d]).s("cm");
                B::new().b(&[d]).s("cm")
            }
            1 => {
                src = src.b(&[d, b'.', e]).s("\\textwidth");
                B::new().b(&[d, b'.', e]).s(" * 100%")
            }
            2 => {
                src = src.s(".").b(&[e]).s("\\textheight");
                B::new().s(".").b(&[e]).s(" * 100%")
            }
            _ => {
                src = src.s("\\textwidth");
                B::new().s("100%")
            }
        };
        src = src.s(z);
        if kept {
            want = want.s(key).s(": ").b(&val.0).s(", ");
        }
    }
    if n > 0 {
        src = src.s("]");
    }
    let (p, q, r) = (byte(&LETTER), byte(&or(WORD, m(b"/-_.:"))), byte(&WORD));
    // the braces of a path are its own
    let path = match split(choose(3), 3) {
        0 => vec![p, q, r],
        1 => vec![p, b'{', q, r, b'}'],
        _ => vec![b'{', p, b'}', q, r],
    };
    let (a, z) = pick(&[("{", "}"), ("{ ", "%{\n }"), (" {%}\n", "}"), ("%c\n{", "}")]);
    src = src.s(a).b(&path).s(z).s(post);
    want = want.s("\"").b(&path).s("\")").s(ipost);
    out(&src.0);
    match conv(true, src.str()) {
        Ok(o) => {
            out(o.as_bytes());
            check_same(o.as_bytes(), &want.0, "an image does not keep its path, width and height")
        }
        Err(e) => {
            out(e.as_bytes());
            fail("an image was refused")
        }
    }
}
/// `which`: 0 \textcolor, 1 \colorbox, 2 \color
pub fn h_color(which: u64, ctx: u64, mode: u64, _d: u64) {
    let (pre, post, ipre, ipost) = [("", "", "", ""), ("{", "}b", "", "b"), ("\\begin{quote}", "\\end{quote}c", "#quote(block: true)[", "];c"), ("\\textbf{", "} c", "#strong[", "]; c")][ctx as usize];
    let (name, alias) = [("\\textcolor", "#colortext"), ("\\colorbox", "#mitexcolorbox"), ("\\color", "#mitexcolor")][which as usize];
    let is_text = mode == 1;
    let (pre, post, ipre, ipost) = if is_text { (pre, post, ipre, ipost) } else { ("x", "", "x ", "") };
    let mut src = B::new().s(pre).s(name);
    let mut want = B::new().s(ipre).s(alias).s("(");
    let gap = pick(&["", " ", "\n"]);
    let c = byte(&LOWER);
    match split(choose(5), 5) {
        3 => {
            let model = pick(&["[ rgb, x]", "[]", "[ ]"]);
            src = src.s(model).s(gap).s("{ a b}");
            want = want.s(model).s(", [ a b])[");
        }
        4 => {
            // without a colour it is black
            let l = [byte(&LETTER), byte(&WORD)];
            let model = split(choose(2), 2) == 1;
            let (s, w) = if model { (B::new().s("[").b(&l).s("]"), B::new().s("[").b(&l).s("]")) } else { (B::new(), B::new().s("none")) };
            let post = if ctx == 0 { "%c" } else { post };
            src = src.b(&s.0).s(post);
            want = want.b(&w.0).s(", [black])[").s(if is_text { "];" } else { "]" }).s(ipost);
            out(&src.0);
            match conv(is_text, src.str()) {
                Ok(o) => check_same(o.as_bytes(), &want.0, "a missing colour is not black"),
                Err(_) => fail("a missing colour was refused"),
            }
            return;
        }
        0 => {
            let l = [byte(&LETTER), byte(&WORD)];
            src = src.s(gap).s("{").b(&l).s("}");
            want = want.s("none, [").b(&l).s("])[");
        }
        1 => {
            let (x, y) = (byte(&DIGIT), byte(&DIGIT));
            src = src.s("[rgb]").s(gap).s("{").b(&[x]).s(",.").b(&[y]).s(",1}");
            want = want.s("[rgb], [").b(&[x]).s("\\,.").b(&[y]).s("\\,1])[");
        }
        _ => {
            let l = [byte(&WORD), byte(&WORD)];
            src = src.s("[HTML").s(pick(&["", "%[]\n"])).s("]{").b(&l).s("}");
            want = want.s("[HTML], [").b(&l).s("])[");
        }
    }
    if which < 2 {
        src = src.s(pick(&["", " ", "%c\n"])).s("{");
    }
    let (bs, bt, bm) = pick(&[("", "", ""), ("b,", "b\\,", "b \\,"), ("\\alpha", "alpha ", "alpha "), ("{b}", "b", "b ")]);
    if which == 2 {
        // each item of a formula is a formula of its own here: one item
        let bs = if is_text { B::new().s("{").b(&[c]).s("}").s(bs) } else { B::new().s("{").b(&[c]).s("}") };
        src = src.b(&bs.0);
        want = if is_text { want.b(&[c]).s(bt) } else { want.s("$").b(&[c]).s(" $") };
    } else {
        src = src.b(&[c]).s(bs).s("}");
        want = if is_text { want.b(&[c]).s(bt) } else { want.s("$").b(&[c]).s(" ").s(bm).s("$") };
    }
    src = src.s(post);
    want = want.s(if is_text { "];" } else { "]" }).s(ipost);
    out(&src.0);
    match conv(is_text, src.str()) {
        Ok(o) => {
            out(o.as_bytes());
            check_same(o.as_bytes(), &want.0, "colour model, colour and coloured text do not reach the output as written")
        }
        Err(e) => {
            out(e.as_bytes());
            fail("a coloured text was refused")
        }
    }
}
