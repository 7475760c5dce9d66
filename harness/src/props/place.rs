//! What stands in a construct converts as it does alone: C16, C17, C30, C33.
use super::flat::IN;
use super::sym::*;
use super::outp::balance;
use super::total::{atom, conv, put};

/// scripts on a base
fn scripts() -> Vec<u8> {
    let (l, d) = (byte(&LOWER), byte(&or(DIGIT, LOWER)));
    let op = byte(&m(b"^_"));
    match split(choose(14), 14) {
        0 => vec![l, op, d],
        1 => vec![op, d],
        2 => vec![b'{', b'}', op, b'{', l, d, b'}'],
        3 => [&b"\\frac{1}{a}"[..], &[op, d]].concat(),
        4 => [&b"x_1^2"[..], &[op, b'{', l, b'}']].concat(),
        5 => [&b"\\sum\\limits"[..], &[op, b'{', l, b'=', d, b'}', b'^', d]].concat(),
        6 => [&b"\\left(a\\right)"[..], &[op, d]].concat(),
        7 => vec![l, op, b'{', l, b'^', b'{', l, op, d, b'}', b'}'],
        8 => [&b"\\alpha"[..], &[op], b"\\beta"].concat(),
        9 => [&[l, l, op][..], b"\\frac", &[d], b"{b}"].concat(),
        10 => [&b"\\begin{matrix}a&b\\end{matrix}"[..], &[op, d]].concat(),
        11 => [&b"\\text{a}"[..], &[op], b"\\text{b $c$}"].concat(),
        12 => vec![l, b' ', op, b' ', d],
        _ => [&b"\\hat"[..], &[b' ', l, op, d]].concat(),
    }
}
/// one construct with its own cells, rows, mode or arguments
fn construct(math: bool) -> Vec<u8> {
    const MATH: &[&str] = &[
        "\\begin{matrix}a&Q\\\\c&d\\end{matrix}", "\\begin{cases}a&Q\\\\c\\end{cases}", "\\begin{aligned}a&=Q\\\\&=c\\end{aligned}",
        "\\begin{array}{l|c}a&Q\\\\c\\end{array}", "\\begin{pmatrix}a\\\\Q\\end{pmatrix}", "{a\\\\Q}", "\\substack{a\\\\Q}", "\\left[a\\middle|Q\\right.",
        "\\text{a $Q$ c}", "\\sqrt[3]{Q}", "\\sqrt[Q]a", "(Q]", "\\binom{a}{Q}", "\\mathrm{Q}", "{\\displaystyle Q}", "{a\\over Q}", "\\textcolor{red}{Q}", "{\\color{red}Q}",
        "\\frac1Q", "\\operatorname{Q}", "\\overset{a}Q", "\\hat{Q}\\limits", "{}Q{}", "\\mathbb Q", "\\textbf{Q}", "\\begin{matrix}\\begin{cases}Q&a\\\\b\\end{cases}&c\\\\d\\end{matrix}",
        "\\text{\\textbf{Q} $\\begin{matrix}a&b\\end{matrix}$ c~}", "~Q~", "\\newcommand{\\f}[1]{#1^#1}\\f{Q}\\f b", "\\iftrue Q\\else b\\fi c", "\\substack{{a\\\\Q}\\\\b}",
        "\\begin{smallmatrix}\\frac{a}{Q}&b\\\\c\\end{smallmatrix}", "\\left(\\begin{array}{c}a\\\\Q\\end{array}\\right)", "{\\bf Q}",
    ];
    const TEXT: &[&str] = &[
        "$Q$", "$$Q$$", "\\(Q\\)", "\\[Q\\]", "\\begin{equation}Q\\end{equation}", "\\begin{align}a&=Q\\\\&=c\\end{align}", "\\begin{tabular}{l|c}Q&a\\\\\\hline b&$c$\\\\\\end{tabular}",
        "\\begin{quote}Q\\end{quote}", "\\begin{figure}Q\\caption{a}\\end{figure}", "\\textbf{Q}", "\\textit{a \\textbf{Q}}", "\\textcolor{red}{Q}", "{Q}", "\\footnote{Q}", "\\ref{Q}",
        "\\includegraphics[width=1cm]{Q}", "$\\begin{cases}a&Q\\\\b\\end{cases}$", "\\iftrue Q\\else b\\fi c", "\\newcommand{\\f}[1]{#1 $#1$}\\f{Q}\\f b", "$\\text{a $Q$}$", "$\\left(Q\\right]$",
        "\\begin{matrix}a&Q\\\\c\\end{matrix}", "\\begin{table}\\begin{tabular}{c}Q\\end{tabular}\\caption{a}\\end{table}", "$Q^2$ \\%", "{\\color{red}Q}", "\\url{Q}", "$\\substack{a\\\\Q}$", "\\iftypst Q\\fi",
    ];
    let t = if math { pick(MATH) } else { pick(TEXT) };
    let l = byte(&LOWER);
    t.bytes().map(|c| if c == b'Q' { l } else { c }).collect()
}
/// every character that stands for itself, alone or after a letter
fn character(math: bool) -> Vec<u8> {
    let c = byte(&minus(range(33, 126), m(if math { b"\\${}%&^_'[](),;" } else { b"\\${}%&[]" })));
    let l = byte(&LOWER);
    match split(choose(4), 4) {
        0 => vec![c],
        1 => vec![l, c],
        2 => vec![c, b' ', l],
        _ => pick(&["é", "中b", "😀 ", "~", "é中é", "öaü1中"]).as_bytes().to_vec(),
    }
}

/// what stands before and behind a place, itself inside another construct (outer > 0) of its mode: (whole input is a formula, before, behind, what may not stand there)
fn around(place: u64, outer: u64) -> Option<(bool, B, B, Vec<u8>)> {
    let (whole, _, pre, post, not) = IN[place as usize];
    if outer == 0 {
        return Some((whole, B::new().s(pre), B::new().s(post), not.to_vec()));
    }
    let fit: Vec<usize> = (0..IN.len()).filter(|i| IN[*i].1 == whole && i % 4 == outer as usize - 1).collect();
    let o = IN[fit[split(choose(fit.len() as u8), fit.len() as u8) as usize]];
    // a bracket of the inner construct would end the outer one
    if o.4.contains(&b']') && o.4.iter().any(|c| pre.as_bytes().contains(c) || post.as_bytes().contains(c)) {
        return None;
    }
    Some((o.0, B::new().s(o.2).s(" ").s(pre), B::new().s(post).s(" ").s(o.3), [o.4, not].concat()))
}

/// any n tokens inside one construct, or inside one in another: C01; with `how` & 1: C09
pub fn h_deep(n: u64, place: u64, how: u64, outer: u64) {
    let Some((whole, pre, post, _)) = around(place, outer) else { return };
    let mut b = pre.s(" u ");
    for _ in 0..n {
        b = b.s(atom());
    }
    let b = b.s(" v ").b(&post.0);
    // how & 2: in the other mode
    let mode = !whole ^ (how & 2 != 0);
    if how & 1 != 0 {
        balance(mode, b.str())
    } else {
        put(mode as u64, b.str())
    }
}
/// n units inside one construct, or inside one in another
pub fn h_in(n: u64, place: u64, set: u64, outer: u64) {
    let math = IN[place as usize].1;
    let Some((whole, pre, post, not)) = around(place, outer) else { return };
    let mut x = vec![];
    for i in 0..n {
        if i > 0 {
            x.push(b' ');
        }
        let u = match set {
            0 => scripts(),
            1 => construct(math),
            _ => character(math),
        };
        // a group before the end of a greedy argument is one of its own, and rows of a group in \substack are kept
        if set == 1 && u[0] == b'{' && (place == 12 || place == 13 || u[2] == b'\\' && pre.str().contains("substack")) {
            return;
        }
        x.extend_from_slice(&u);
    }
    // `]` ends the place
    if not.contains(&b']') && x.iter().any(|c| b"[]".contains(c)) {
        return;
    }
    let frame = B::new().b(&pre.0).s(" u Q v ").b(&post.0);
    let alone = B::new().s("a u ").b(&x).s(" v a");
    let b = B::new().b(&pre.0).s(" u ").b(&x).s(" v ").b(&post.0);
    out(&b.0);
    let (Ok(f), Ok(mark), Ok(a)) = (conv(!whole, frame.str()), conv(!math, " u Q v "), conv(!math, alone.str())) else {
        // what is refused alone is refused here
        let r = conv(!whole, b.str());
        check(r.is_err(), "what is refused alone is accepted inside a construct");
        return;
    };
    let (mark, a) = (mark.trim(), trim(a.as_bytes()));
    let at = f.as_bytes().windows(mark.len()).position(|w| w == mark.as_bytes());
    let Some(at) = at else { fail("a letter's image is missing") };
    let want = B::new().b(&f.as_bytes()[..at]).b(a).b(&f.as_bytes()[at + mark.len()..]);
    match conv(!whole, b.str()) {
        Ok(o) => {
            out(o.as_bytes());
            check_same(o.as_bytes(), &want.0, "what stands in a construct does not convert as it does alone")
        }
        Err(e) => {
            out(e.as_bytes());
            fail("what converts alone is refused in a construct")
        }
    }
}
/// between the letters around it
fn trim(a: &[u8]) -> &[u8] {
    let n = a.len();
    let z = (0..n).rev().find(|i| a[*i] == b'v').unwrap_or(0) + 1;
    &a[a.iter().position(|c| *c == b'u').unwrap_or(0)..z]
}
