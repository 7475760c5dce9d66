//! Many items in a row and deep nestings, for most properties.
use super::sym::*;
use super::total::conv;
use super::shapes::{cmd, env, spec};
use mitex_spec::{ArgPattern, ArgShape, ContextFeature, GlobStr};

/// (math, in front, one item, between two, behind; their images), `Q` stands for a letter
type Seq = (bool, [&'static str; 4], [&'static str; 4]);
const SEQ: &[Seq] = &[
    (false, ["a\\begin{itemize}", "\\item Q", "", "\\end{itemize}b"], ["a", "\n-  Q", "", "b"]),
    (false, ["\\begin{enumerate}", "\\item Q\n w", "", "\\end{enumerate}\nb"], ["", "\n+  Q\n  w", "", "\nb"]),
    (false, ["\\begin{tabular}{lc}", "Q&b", "\\\\", "\\end{tabular}b"], ["#table(stroke: none,\ncolumns: 2,\nalign: (left, center, ),\n\n", "[Q], [b],\n", "", ");b"]),
    (false, ["\\begin{tabular}{|c|}\\hline ", "Q", "\\\\\\hline ", "\\end{tabular}b"], ["#table(stroke: none,\ncolumns: 1,\nalign: (center, ),\ntable.vline(stroke: .5pt, x: 0), table.vline(stroke: .5pt, x: 1), \ntable.hline(stroke: .5pt),\n", "[Q],\n", "table.hline(stroke: .5pt),\n", ");b"]),
    (true, ["\\begin{matrix}", "Q&b", "\\\\", "\\end{matrix}"], ["matrix(", "Q zws ,b ", "zws ;", ")"]),
    (true, ["\\begin{matrix}", "Q", "&", "\\end{matrix}"], ["matrix(", "Q ", "zws ,", ")"]),
    (true, ["\\begin{cases}", "Q&b", "\\\\", "\\end{cases}"], ["cases(", "Q &b ", ",", ")"]),
    (true, ["\\substack{", "Q", "\\\\", "}b"], ["substack(", "Q ", "\\ ", ")b "]),
    (false, ["", "\\section{Q}", "\n", ""], ["", "#heading(level: 1)[Q];", "\n", ""]),
    (false, ["", "$Q$", ".", ""], ["", "#math.equation(block: false, $Q $);", ".", ""]),
    (false, ["", "\\(Q^2\\)", " ", ""], ["", "#math.equation(block: false, $Q ^(2 )$);", " ", ""]),
    (false, ["\\newcommand{\\f}[1]{(#1)}", "\\f{Q}", ".", ""], ["", "\\(Q\\)", ".", ""]),
    (true, ["\\newcommand{\\f}[2]{#2#1}", "\\f Qb", "+", ""], ["", "b Q ", "+ ", ""]),
    (false, ["\\newenvironment{f}{(}{)}", "\\begin{f}Q\\end{f}", ".", ""], ["", "\\(Q\\)", ".", ""]),
    (false, ["", "\\iftrue Q\\fi", ".", ""], ["", " Q", ".", ""]),
    (false, ["", "\\iffalse a}\\else.Q\\fi", ",", ""], ["", ".Q", "\\,", ""]),
    (false, ["", "Q%,a{\n", "", "b"], ["", "Q\n", "", "b"]),
    (true, ["", "\\frac{Q}b", "", ""], ["", "frac(Q ,b )", "", ""]),
    (true, ["\\displaystyle ", "Q+", "", ""], ["mitexdisplay( ", "Q + ", "", ")"]),
    (true, ["", "Q", "+", "\\over b"], ["frac(", "Q ", "+ ", ", b )"]),
    (true, ["", "{Q}^2", "", ""], ["", "Q ^(2 )", "", ""]),
    (true, ["", "Q_2^b", " ", ""], ["", "Q _(2 )^(b )", " ", ""]),
    (true, ["", "\\left(Q\\right.", "", ""], ["", "lr(\\( Q  )", "", ""]),
    (true, ["\\left[", "Q", ",", "\\right]"], ["lr(\\[ ", "Q ", "\\,", "\\] )"]),
    (false, ["", "\\begin{equation}Q\\label{Q-1}\\end{equation}", "\n", ""], ["", "$ aligned(Q ) $<Q-1>", "\n", ""]),
    (false, ["", "\\includegraphics[width=1cm]{Q}", " ", ""], ["", "#image(width: 1cm, \"Q\")", " ", ""]),
    (false, ["", "\\textcolor{red}{Q}", " ", ""], ["", "#colortext(none, [red])[Q];", " ", ""]),
    (false, ["", "\\textbf{Q}", ".", ""], ["", "#strong[Q];", ".", ""]),
    (false, ["", "\\begin{quote}Q\\end{quote}", ".", ""], ["", "#quote(block: true)[Q];", ".", ""]),
    (false, ["", "\\begin{figure}Q\\caption{Q}\\label{Q}\\end{figure}", "\n", ""], ["", "#figure(caption: [Q],)[Q];<Q>", "\n", ""]),
    (true, ["", "\\text{Q}", "", ""], ["", "#textmath[Q];", "", ""]),
    (true, ["", "\\alpha Q", "", ""], ["", "alpha  Q ", "", ""]),
    (false, ["", "\\iftypst #f(Q)\\fi", ".", ""], ["", " #f(Q)", ".", ""]),
];
/// n to n + 15 items in a row, the first, middle and last with a symbolic letter
pub fn h_row(n: u64, which: u64, what: u64, _d: u64) {
    let n = n + split(choose(16), 16) as u64;
    let (math, s, w) = &SEQ[which as usize];
    let (mut src, mut want) = (B::new().s(s[0]), B::new().s(w[0]));
    let c = byte(&LOWER);
    for i in 0..n {
        let l = if i == 0 || i == n / 2 || i + 1 == n { c } else { b'x' };
        for (b, t) in [(&mut src, s), (&mut want, w)] {
            if i > 0 {
                b.0.extend_from_slice(t[2].as_bytes());
            }
            b.0.extend(t[1].bytes().map(|x| if x == b'Q' { l } else { x }));
        }
    }
    view(*math, src.s(s[3]), want.s(w[3]), what);
}
/// what is stated about a text and its image: 0 the conversion, 1 the tree, 2 the tokens, 3 the expander's silence, 4 the plugin
fn view(math: bool, src: B, want: B, what: u64) {
    match what {
        1 => super::tree::check_tree(src.str()),
        2 => super::lexer::against_reference(src.str()),
        3 => {
            out(&src.0);
            super::lexer::passes(&src)
        }
        4 => super::plugin::agree(!math as u64, &src.0, b"", None),
        _ => check_conv(math, src, want),
    }
}
fn check_conv(math: bool, src: B, want: B) {
    out(&src.0);
    match conv(!math, src.str()) {
        Ok(o) => {
            out(o.as_bytes());
            check_same(o.as_bytes(), &want.0, "many items or a deep nesting do not convert as few do")
        }
        Err(e) => {
            out(e.as_bytes());
            fail("many items or a deep nesting are refused")
        }
    }
}
/// (math, around, its image), `Q` stands for a letter
type Nest = (bool, [&'static str; 2], [&'static str; 2]);
const NEST: &[Nest] = &[
    (false, ["Q{", "}."], ["Q", "."]),
    (true, ["Q+{", "}"], ["Q + ", ""]),
    (true, ["\\frac{Q", "}{b}"], ["frac(Q ", ",b )"]),
    (true, ["\\frac{Q}{", "}"], ["frac(Q ,", ")"]),
    (true, ["Q^{", "}"], ["Q ^(", ")"]),
    (true, ["Q_{b", "}+"], ["Q _(b ", ")+ "]),
    (true, ["\\left(Q", "\\right]"], ["lr(\\( Q ", "\\] )"]),
    (true, ["\\begin{matrix}Q&", "\\\\b\\end{matrix}"], ["matrix(Q zws ,", "zws ;b )"]),
    (true, ["\\begin{cases}Q&b\\\\", "\\end{cases}"], ["cases(Q &b ,", ")"]),
    (true, ["\\sqrt{", "}Q"], ["mitexsqrt(", ")Q "]),
    (true, ["\\sqrt[Q]{", "}"], ["mitexsqrt(\\[Q \\],", ")"]),
    (true, ["\\text{Q$", "$}"], ["#textmath[Q#math.equation(block: false, $", "$);];"]),
    (false, ["\\textbf{Q", "}."], ["#strong[Q", "];."]),
    (false, ["\\begin{quote}Q", ".\\end{quote}"], ["#quote(block: true)[Q", ".];"]),
    (false, ["\\begin{figure}Q", "\\label{Q}\\end{figure}"], ["#figure()[Q", "];<Q>"]),
    (false, ["\\textcolor{red}{Q", "}"], ["#colortext(none, [red])[Q", "];"]),
    (false, ["\\iftrue Q", "\\fi."], [" Q", "."]),
    (false, ["\\iffalse\\zz\\else{Q", "}\\fi."], ["Q", "."]),
    (true, ["\\binom{Q", "}{b}"], ["binom(Q ", ",b )"]),
    (true, ["\\overset{Q}{", "}"], ["overset(Q ,", ")"]),
    (true, ["{Q\\over{", "}}"], ["frac(Q ,", ")"]),
];
/// one construct inside itself n to n + 7 times, with symbolic letters
pub fn h_inside(n: u64, which: u64, what: u64, _d: u64) {
    let n = n + split(choose(8), 8) as u64;
    let (math, s, w) = &NEST[which as usize];
    let c = byte(&LOWER);
    let (mut src, mut want) = (B::new(), B::new());
    for (b, t) in [(&mut src, s), (&mut want, w)] {
        for k in 0..2 {
            for i in 0..n {
                let i = if k == 0 { i } else { n - 1 - i };
                let l = if i == 0 || i == n / 2 || i + 1 == n { c } else { b'x' };
                b.0.extend(t[k].bytes().map(|x| if x == b'Q' { l } else { x }));
            }
            if k == 0 {
                b.0.extend_from_slice(&[c, b' '][..if *math && std::ptr::eq(t, w) { 2 } else { 1 }]);
            }
        }
    }
    view(*math, src, want, what);
}
/// lists inside lists, n deep, itemize and enumerate in turns
pub fn h_lists(n: u64, how: u64, _c: u64, _d: u64) {
    let n = n + split(choose(8), 8) as u64;
    let c = byte(&LOWER);
    let (mut src, mut want) = (B::new(), B::new());
    let env = |i: u64| if (i + how) % 2 == 0 { "itemize" } else { "enumerate" };
    for i in 0..n {
        let indent = " ".repeat(2 * i as usize);
        src = src.s("\\begin{").s(env(i)).s("}\\item ").b(&[c]).s("\nv");
        want = want.s("\n").s(&indent).s(if (i + how) % 2 == 0 { "-  " } else { "+  " }).b(&[c]).s("\n").s(&indent).s("  v");
    }
    for i in (0..n).rev() {
        let indent = " ".repeat(2 * i as usize);
        src = src.s("\\end{").s(env(i)).s("}\n").b(&[c]);
        want = want.s("\n").s(&indent).b(&[c]);
    }
    check_conv(false, src, want);
}
/// n macros, each using the one before it; `how` 1: defined and used in the other order, 2: with an argument, 3: environments
pub fn h_chain(n: u64, how: u64, _c: u64, _d: u64) {
    let n = n + split(choose(8), 8) as u64;
    let c = byte(&LOWER);
    let name = |i: u64| {
        // letters only
        let t = b"abcdefghij";
        B::new().s("zz").b(&[t[i as usize / 100 % 10], t[i as usize / 10 % 10], t[i as usize % 10]])
    };
    let (mut src, mut want, mut tail) = (B::new(), B::new(), B::new());
    for k in 0..n {
        let i = if how == 1 { n - 1 - k } else { k };
        let arg = if how == 2 { "[1]" } else { "" };
        let x = name(i);
        let prev = if i > 0 { name(i - 1) } else { B::new() };
        if how == 3 {
            src = src.s("\\newenvironment{").b(&x.0).s("}{");
            src = if i > 0 { src.s("(\\begin{").b(&prev.0).s("}}{\\end{").b(&prev.0).s("})}") } else { src.b(&[c]).s("}{.}") };
        } else {
            src = src.s("\\newcommand{\\").b(&x.0).s("}").s(arg).s("{");
            src = match (i, how) {
                (0, 2) => src.s("#1").b(&[c]),
                (0, _) => src.b(&[c]),
                (_, 2) => src.s("(\\").b(&prev.0).s("{#1})"),
                _ => src.s("(\\").b(&prev.0).s(")"),
            };
            src = src.s("}");
        }
    }
    for _ in 1..n {
        want = want.s("\\(");
        tail = tail.s("\\)");
    }
    let last = name(n - 1);
    src = match how {
        2 => src.s("\\").b(&last.0).s("{u}"),
        3 => src.s("\\begin{").b(&last.0).s("}u\\end{").b(&last.0).s("}"),
        _ => src.s("\\").b(&last.0).s("{}"),
    };
    want = match how {
        2 => want.s("u").b(&[c]),
        3 => want.b(&[c]).s("u."),
        _ => want.b(&[c]),
    };
    check_conv(false, src, want.b(&tail.0));
}
/// something n to n + 15 characters long, its ends and its middle symbolic: 0 a comment, 1 a label, 2 a path, 3 an unknown command,
/// 4 an unknown environment, 5 a macro's name, 6 a skipped branch, 7 a macro's argument, 8 a Typst block, 9 a colour, 10 a caption,
/// 11 a width, 12 a colour model, 13 a word, 14 a word in a formula; not in a name: perhaps with other letters than ASCII's at the ends
pub fn h_length(n: u64, what: u64, _c: u64, _d: u64) {
    let n = n + split(choose(16), 16) as u64;
    let l = byte(&LOWER);
    let s: Vec<u8> = (0..n).map(|i| if i == 0 || i == n / 2 || i + 1 == n { l } else { b'q' }).collect();
    let (head, end) = if matches!(what, 3..=5) { ("", "") } else { pick(&[("", ""), ("é", ""), ("", "é"), ("中", "😀")]) };
    let s = B::new().s(head).b(&s).s(end).0;
    let t = |a: &str, b: &str| B::new().s(a).b(&s).s(b);
    match what {
        0 => check_conv(false, t("a%", "\nb"), B::new().s("a\nb")),
        1 => check_conv(false, t("\\begin{equation}a\\label{", "}\\end{equation}"), t("$ aligned(a ) $<", ">")),
        2 => check_conv(false, t("\\includegraphics{", "}"), t("#image(\"", "\")")),
        3 | 4 => {
            let src = if what == 3 { t("a\\", " b") } else { t("a\\begin{", "}").s("c\\end{").b(&s).s("}") };
            out(&src.0);
            match conv(true, src.str()) {
                Ok(_) => fail("an unknown name is accepted"),
                Err(e) => check_same(e.as_bytes(), &t(["error: unknown command: \\", "error: unknown environment: \\"][what as usize - 3], "").0, "the refusal does not name what is unknown"),
            }
        }
        5 => check_conv(false, t("\\newcommand{\\", "}{u}a\\").b(&s).s("."), B::new().s("au.")),
        6 => check_conv(false, t("a\\iffalse ", "\\else.b\\fi"), B::new().s("a.b")),
        7 => check_conv(false, t("\\newcommand{\\f}[1]{(#1)}\\f{", "}"), t("\\(", "\\)")),
        8 => check_conv(false, t("a\\iftypst.", "\\fi"), t("a.", "")),
        9 => check_conv(false, t("\\textcolor{", "}{b}"), t("#colortext(none, [", "])[b];")),
        11 => check_conv(false, t("\\includegraphics[height=1cm,width=", "]{a}"), t("#image(height: 1cm, width: ", ", \"a\")")),
        12 => check_conv(false, t("\\textcolor[", "]{a}{b}"), t("#colortext([", "], [a])[b];")),
        13 => check_conv(false, t("a.", ".b"), t("a.", ".b")),
        14 => {
            let mut w = B::new();
            for c in text(&s).chars() {
                w = w.s(c.encode_utf8(&mut [0; 4])).s(" ");
            }
            check_conv(true, t("", "+b"), w.s("+ b "))
        }
        _ => check_conv(false, t("\\begin{figure}a\\caption{", "}\\end{figure}"), t("#figure(caption: [", "],)[a];")),
    }
}

/// a command (`how` 3: an environment) of the caller's specification with n to n + 15 arguments and two more letters behind them;
/// 0 in one word, 1 in groups, 2 as many as there are, 4 declared as a glob
pub fn h_args(n: u64, how: u64, _c: u64, _d: u64) {
    let n = n + split(choose(16), 16) as u64;
    let c = byte(&LOWER);
    let len = n as u8;
    let pattern = match how {
        2 => ArgPattern::RangeLenTerm { min: 1, max: len },
        4 => ArgPattern::Glob { pattern: GlobStr::from("t".repeat(n as usize).as_str()) },
        _ => ArgPattern::FixedLenTerm { len },
    };
    let own = if how == 3 { env(pattern, ContextFeature::IsMath, "g") } else { cmd(ArgShape::Right { pattern }, "g") };
    let own = spec(vec![("f", own)]);
    let mut src = B::new().s(if how == 3 { "\\begin{f}" } else { "\\f " });
    let mut want = B::new().s("g(");
    for i in 0..n {
        let l = if i == 0 || i == n / 2 || i + 1 == n { c } else { b'x' };
        src = if how == 1 { src.s("{").b(&[l]).s("}") } else { src.b(&[l]) };
        want = if how == 3 {
            want.s("arg").s(&i.to_string()).s(": ").b(&[l]).s(" ,")
        } else {
            want.b(&[l]).s(if i + 1 < n { " ," } else { " )" })
        };
    }
    let src = src.b(&[c]).s("y").s(if how == 3 { "\\end{f}" } else { "" });
    let want = want.b(&[c]).s(" y ").s(if how == 3 { ")" } else { "" });
    out(&src.0);
    match mitex::convert_math(src.str(), Some(own)) {
        Ok(o) => {
            out(o.as_bytes());
            check_same(o.as_bytes(), &want.0, "a command does not take as many arguments as it declares")
        }
        Err(e) => {
            out(e.as_bytes());
            fail("a call with all its arguments is refused")
        }
    }
}
