//! C06: conditionals choose one branch.
use super::macros::agree_ok;
use super::sym::*;
use super::total::{atom, conv};

/// pieces of a branch that is not taken: anything but conditionals and definitions
const DEAD: &[&str] = &["1", " a", "}", "$", "{", "\\zz", "\\begin{x}", "\\left", "^", "&", "\\end{x}", "%c\n", "[", "\\frac", "\\ifx a\\fi", "\\ifnum1<2 a\\else b\\fi ", "\\ifcase 1\\ifdim\\fi\\fi", "\\if ab\\fi",
    "\\ifx\\ifnum a\\end{x}\\fi\\begin{y}\\fi", "\\iftrue\\iffalse }\\end{x}\\else\\zz\\fi$\\fi ", "\\iftypst #f(\\else\\fi"];

fn live(math: bool, few: bool, src: &mut Vec<u8>, res: &mut Vec<u8>) {
    let k = if few { 2 * split(choose(2), 2) } else { split(choose(4), 4) };
    let p: Vec<u8> = match k {
        0 => vec![byte(&or(DIGIT, m(b",.;-+")))],
        1 => vec![b' ', byte(&LOWER)],
        2 => if math { b"{b^2}".to_vec() } else { b"\\textbf{u}".to_vec() },
        _ => if math { b"\\alpha ".to_vec() } else { b"$v$ ".to_vec() },
    };
    src.extend_from_slice(&p);
    res.extend_from_slice(&p);
}
/// a conditional: `kind` 0 true, 1 false; a branch is one or two pieces or, if depth allows, one more conditional
fn cond(math: bool, few: bool, depth: u64, on: bool, src: &mut Vec<u8>, res: &mut Vec<u8>) {
    let t = split(choose(2), 2) == 0;
    src.extend_from_slice(if t { b"\\iftrue" } else { b"\\iffalse" });
    branch(math, few, depth, on && t, src, res);
    if split(choose(2), 2) == 1 {
        src.extend_from_slice(b"\\else");
        branch(math, few, depth, on && !t, src, res);
    }
    src.extend_from_slice(b"\\fi");
}
fn branch(math: bool, few: bool, depth: u64, on: bool, src: &mut Vec<u8>, res: &mut Vec<u8>) {
    let k = split(choose(3), 3);
    if k == 0 {
        return;
    }
    if k == 2 && depth > 0 {
        cond(math, few, depth - 1, on, src, res);
        if split(choose(2), 2) == 0 {
            return;
        }
    }
    if on {
        live(math, few, src, res);
    } else {
        src.extend_from_slice(pick(if few { &DEAD[4..6] } else { DEAD }).as_bytes());
    }
}
/// text around n conditionals of nesting depth d
pub fn h_cond(n: u64, depth: u64, math: u64, ctx: u64) {
    let math = math == 1;
    let (pre, post) = [("", ""), ("a ", ".b"), ("{", "}"), ("\\textbf{", "}x"), ("1", "^2"), ("\\frac{1}{a", "}"), ("", " z")][ctx as usize];
    let (mut src, mut res) = (pre.as_bytes().to_vec(), pre.as_bytes().to_vec());
    if ctx == 6 {
        // across the end of the expander's first page of tokens
        let k = 154 + split(choose(16), 16) as usize;
        src.resize(k, b',');
        res.resize(k, b',');
    }
    for _ in 0..n {
        cond(math, n + depth > 1 || ctx == 6, depth, true, &mut src, &mut res);
    }
    src.extend_from_slice(post.as_bytes());
    res.extend_from_slice(post.as_bytes());
    agree_ok(math, text(&src), text(&res), "a conditional is not the branch it selects");
}
/// the body of `\iftypst` is output as it is written
pub fn h_typst(n: u64, els: u64, mode: u64, _d: u64) {
    // a control word ends at a non-letter
    let ok = or(minus(range(32, 126), m(b"\\%")), m(b"\t\n\r"));
    let b = B::new().hn(&minus(ok, or(LETTER, m(b"@*"))), 1).hn(&ok, n);
    // what mitex would read elsewhere means nothing there
    let b = b.s(pick(&["", "%c\n", "\\alpha y\\\\\n", "é\n\n", "\\left(\\{", "% \n%\n "]));
    let src = B::new().s("a\\iftypst").b(&b.0).s(["\\fi", "\\else b{\\zz}\\fi", "\\else\\iftrue b\\else c\\fi d\\fi"][els as usize]).s(" ");
    out(&src.0);
    match conv(mode == 1, src.str()) {
        Ok(o) => {
            out(o.as_bytes());
            let want = B::new().s(if mode == 1 { "a" } else { "a " }).b(&b.0).s(" ");
            check_same(o.as_bytes(), &want.0, "the body of \\iftypst is not output as written")
        }
        Err(e) => {
            out(e.as_bytes());
            fail("a typst block was refused")
        }
    }
}

/// n conditionals, each in a branch of the one before it; `form`: which branch; `top` 1: in a branch not taken, 2: before a branch
/// not taken of a block of Typst code, whose own conditional is not evaluated
pub fn h_cond_deep(n: u64, form: u64, mode: u64, top: u64) {
    let mut src = B::new().s(["a", "a\\iffalse", "a\\iftypst "][top as usize]);
    let mut res = B::new().s("a");
    let mut on = top == 0;
    let mut ends = Vec::new();
    for i in 0..n {
        let (l, r) = (byte(&LOWER), byte(&LOWER));
        let t = top == 2 || split(choose(2), 2) == 0;
        // the block is written as it is
        let (head, t) = if top == 2 { ("\\ifx", false) } else { (if t { "\\iftrue" } else { "\\iffalse" }, t) };
        let inner = (form + i) % 3 == 0;
        src = src.s(head).s(" ");
        if !inner {
            // the rest stands in the second branch
            src = src.b(&[l]).s("\\else ");
            if on && t {
                res = res.s(" ").b(&[l]);
            }
        }
        ends.push((inner, on, t, r));
        on &= t == inner;
        if on {
            res = res.s(" ");
        }
    }
    src = src.s("q");
    if on {
        res = res.s("q");
    }
    while let Some((inner, was, t, r)) = ends.pop() {
        if inner && (n + form) % 2 == 0 {
            src = src.s("\\else ").b(&[r]);
            if was && !t {
                res = res.s(" ").b(&[r]);
            }
        }
        src = src.s("\\fi ");
        if was {
            res = res.s(" ");
        }
    }
    if top == 2 {
        res = B::new().s("a").b(&src.0["a\\iftypst".len()..]);
    }
    let (src, res) = match top {
        0 => (src, res),
        1 => (src.s("v\\else w\\fi"), res.s(" w")),
        _ => (src.s("\\else{\\zz}\\fi"), res),
    };
    let (src, res) = (src.s("."), res.s("."));
    if top < 2 {
        return agree_ok(mode == 0, src.str(), res.str(), "a conditional is not the branch it selects");
    }
    out(&src.0);
    match conv(mode == 1, src.str()) {
        Ok(o) => {
            out(o.as_bytes());
            let want = B::new().s(if mode == 1 { "a" } else { "a " }).b(&res.0[1..res.0.len() - 1]).s(if mode == 1 { "." } else { ". " });
            check_same(o.as_bytes(), &want.0, "the body of \\iftypst is not output as written")
        }
        Err(e) => {
            out(e.as_bytes());
            fail("a typst block was refused")
        }
    }
}

/// n tokens of any kind in a branch that is not taken
pub fn h_dead(n: u64, form: u64, mode: u64, _d: u64) {
    let mut x = B::new();
    for _ in 0..n {
        let a = atom();
        if a.starts_with("\\if") || a == "\\else" || a == "\\fi" || a == "\\" || a.ends_with('{') && a.len() > 1 || form == 3 && (a == "{" || a == "}") {
            return;
        }
        x = x.s(a);
    }
    let l = byte(&LOWER);
    // a control word ends before a letter
    let x = B::new().s(" ").b(&x.0).s(" ");
    let (src, res) = match form {
        0 => (B::new().s("a\\iffalse").b(&x.0).s("\\else ").b(&[l]).s("\\fi."), B::new().s("a ").b(&[l]).s(".")),
        1 => (B::new().s("a\\iftrue ").b(&[l]).s("\\else").b(&x.0).s("\\fi."), B::new().s("a ").b(&[l]).s(".")),
        2 => (B::new().s("a\\iffalse\\iftrue").b(&x.0).s("\\else").b(&x.0).s("\\fi\\zz\\else ").b(&[l]).s("\\fi."), B::new().s("a ").b(&[l]).s(".")),
        3 => (B::new().s("\\newcommand{\\g}[1]{\\iffalse").b(&x.0).s("\\else #1\\fi}a\\g ").b(&[l]).s("."), B::new().s("a ").b(&[l]).s(".")),
        _ => (B::new().s("{\\iftrue\\iftrue ").b(&[l]).s("\\fi\\else\\iftypst").b(&x.0).s("\\fi\\fi}."), B::new().s("{ ").b(&[l]).s("}.")),
    };
    agree_ok(mode == 0, src.str(), res.str(), "a conditional is not the branch it selects");
}

/// macros in a branch that is not taken are neither defined nor expanded; `form`: which branch
pub fn h_dead_macro(form: u64, mode: u64, n: u64, _d: u64) {
    let l = byte(&LOWER);
    let defs = "\\newcommand{\\f}[2]{(#2#1)}\\newcommand{\\h}{\\fi b\\iftrue}\\newenvironment{e}[1]{u#1}{v}";
    let mut x = B::new();
    for _ in 0..n {
        let k = split(choose(22), 22);
        x = x.s([
            "\\f", "\\f{a}", "\\f 1", "\\f{", "\\h", "\\h\\h ", "\\begin{e}", "\\begin{e}a\\end{q}", "\\end{e}", "\\newcommand{\\g}{c}", "\\newcommand", "\\newcommand{\\g}", "\\newcommand{\\g}[1]",
            "\\renewcommand{\\f}{d}", "\\renewcommand{\\zz}{d}", "\\providecommand{\\g}{", "\\newenvironment{d}{a}", "\\renewenvironment{e}{x}{y}", "\\DeclareRobustCommand{\\f}[1]{#1#1}", "\\newcommand{\\h}{x}", "\\newcommand{\\g}[", "\\newcommand*{\\g",
        ][k as usize]);
        let gap = pick(&["", " ", "%\n"]);
        x = x.s(gap);
    }
    // what stands there afterwards shows which definitions are in force
    let after = B::new().s("\\newcommand{\\g}{").b(&[l]).s("}\\newenvironment{d}{(}{)}\\g\\f 12\\begin{e}3\\begin{d}w\\end{d}\\end{e}");
    let doc = |d: B| B::new().s(defs).b(&d.0).b(&after.0);
    let t = B::new().b(&[l]).s(",");
    let (src, res) = match form {
        0 => (B::new().s("\\iffalse").b(&x.0).s("\\else ").b(&t.0).s("\\fi "), B::new().s(" ").b(&t.0).s(" ")),
        1 => (B::new().s("\\iftrue ").b(&t.0).s("\\else").b(&x.0).s("\\fi "), B::new().s(" ").b(&t.0).s(" ")),
        2 => (B::new().s("\\iffalse").b(&x.0).s("\\fi "), B::new().s(" ")),
        3 => (B::new().s("\\iffalse\\iftrue ").b(&x.0).s("\\else ").b(&x.0).s("\\fi").b(&x.0).s("\\fi "), B::new().s(" ")),
        4 => (B::new().s("\\textbf{\\iffalse").b(&x.0).s("\\else ").b(&t.0).s("\\fi}"), B::new().s("\\textbf{ ").b(&t.0).s("}")),
        _ => (B::new().s("\\iftrue\\iffalse\\ifx").b(&x.0).s("\\fi\\iftypst ").b(&x.0).s("\\else\\fi\\else ").b(&t.0).s("\\fi\\else").b(&x.0).s("\\fi "), B::new().s(" ").b(&t.0).s(" ")),
    };
    agree_ok(mode == 0, doc(src).str(), doc(res).str(), "macros in a branch that is not taken matter");
}
