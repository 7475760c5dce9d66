//! C17: scripts belong to the item right before them.
use super::sym::*;
use super::total::conv;

fn cv(b: &[u8]) -> Vec<u8> {
    match conv(false, text(b)) {
        Ok(o) => o.into_bytes(),
        Err(e) => {
            out(e.as_bytes());
            fail("a formula without scripts was refused")
        }
    }
}
/// the script as it is written, with symbolic characters; `next`: what follows must not start with a letter
fn script(kinds: u8) -> Vec<u8> {
    match split(choose(kinds), kinds) {
        0 => vec![byte(&or(LOWER, DIGIT))],
        1 => vec![b'{', byte(&LOWER), byte(&m(b" +-1")), b'}'],
        2 => b"\\alpha".to_vec(),
        3 => [&b"\\frac"[..], &[byte(&DIGIT), byte(&DIGIT)]].concat(),
        4 => [&b"\\sqrt{"[..], &[byte(&LOWER)], b"}"].concat(),
        5 => vec![b'{', byte(&LOWER), b'^', byte(&DIGIT), b'}'],
        6 => vec![byte(&m(b"*,;/+-"))],
        _ => b"\\mathrm{d}".to_vec(),
    }
}
const PRE: &[&str] = &["", "z ", "z&", "z\\\\", "{z}", "\\left(z\\right)", "\\frac{1}{2}", "x_1", "\n"];
const POST: &[&str] = &["", " b", "+b", "&c", "\\\\d", "{e}", "\\frac{1}{2}", "(b)"];
const BASE: &[&str] = &[
    "", "q", "12", "{q}", "\\alpha", "\\frac{a}{b}", "\\left(a\\right]", "\\sqrt[3]{a}", "\\sum\\limits", "\\begin{matrix}a&b\\end{matrix}", "\\text{a}", "]", "|", "~", "\\mathrm{d}", "{\\bf x}", "+", ",",
];
const WRAP: &[(&str, &str)] = &[("", ""), ("\\frac{", "}{2}"), ("\\begin{matrix}a&", "\\end{matrix}"), ("\\left(", "\\right)"), ("{", "}"), ("\\begin{cases}", "\\end{cases}"), ("\\sqrt{", "}"), ("$", "$")];

/// k scripts on any base; `wrap`: inside which construct
pub fn h_attach(k: u64, pre: u64, wrap: u64, post: u64) {
    let (l, r) = WRAP[wrap as usize];
    let p = PRE[pre as usize];
    let bases = if k == 1 { BASE.len() } else { 7 } as u8;
    let mut base = BASE[split(choose(bases), bases) as usize].as_bytes().to_vec();
    if base.first() == Some(&b'q') {
        base = vec![byte(&LOWER)];
    }
    // without a base of its own a script takes the item before it: only at the start of a list or cell
    if base.is_empty() && !(p.is_empty() || p.ends_with('&') || p.ends_with("\\\\") || p == "\n") {
        return;
    }
    // a cell cannot begin in a one-cell construct
    let tail = POST[post as usize].as_bytes();
    let parts = |s: &[u8]| s.contains(&b'&') || s.starts_with(b"z\\\\") || s.starts_with(b"\\\\");
    if parts(p.as_bytes()) || parts(tail) {
        assume(wrap != 1 && wrap != 4 && wrap != 6);
    }
    let (mut src, mut want) = (vec![], vec![]);
    src.extend_from_slice(p.as_bytes());
    src.extend_from_slice(&base);
    // in its place, what is not a script converts as it does alone
    want.extend_from_slice(&cells(cv(p.as_bytes()), wrap));
    want.extend_from_slice(&cv(&base));
    for i in 0..k {
        if base.is_empty() {
            want.extend_from_slice(b"zws");
        }
        let gap = if i == 0 && !base.is_empty() && choose(2) == 1 { &b" "[..] } else { b"" };
        let op = byte(&m(b"^_"));
        let inner = if k == 1 { pick(&[&b""[..], b" ", b"\n", b"%c\n", b" %\n "]) } else { pick(&[&b""[..], b"\n"]) };
        let s = script(if k == 1 { 8 } else { 4 });
        for x in [gap, &[op], inner, &s] {
            src.extend_from_slice(x);
        }
        want.extend_from_slice(&cv(gap));
        want.push(op);
        want.push(b'(');
        want.extend_from_slice(&cv(&[inner, &s].concat()));
        want.push(b')');
    }
    src.extend_from_slice(tail);
    want.extend_from_slice(&cells(cv(tail), wrap));
    // the construct around it
    let (x, w) = (B::new().s(l).b(&src).s(r), want);
    out(&x.0);
    let got = match conv(false, x.str()) {
        Ok(o) => o.into_bytes(),
        Err(e) => {
            out(e.as_bytes());
            fail("scripts were refused")
        }
    };
    out(&got);
    let plain = |a: &[u8], z: &[u8]| [a, &w, z].concat();
    let want = match wrap {
        0 | 4 | 7 => plain(b"", b""),
        1 => plain(b"frac(", b",2 )"),
        2 => plain(b"matrix(a zws ,", b")"),
        3 => plain(b"lr(\\( ", b"\\) )"),
        5 => plain(b"cases(", b")"),
        _ => plain(b"mitexsqrt(", b")"),
    };
    // a blank before or after a closing parenthesis says nothing
    check_same(&tight(&got), &tight(&want), "a script is not attached to the item before it");
}

fn tight(b: &[u8]) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    for &c in b {
        if c == b')' {
            while o.last() == Some(&b' ') {
                o.pop();
            }
        }
        if c != b' ' || o.last() != Some(&b')') {
            o.push(c);
        }
    }
    o
}

/// how cell and row separators read inside the construct
fn cells(b: Vec<u8>, wrap: u64) -> Vec<u8> {
    match (wrap, text(&b)) {
        (2, s) => s.replace('&', "zws ,").replace("\\ ", "zws ;").into_bytes(),
        (5, s) => s.replace("\\ ", ",").into_bytes(),
        _ => b,
    }
}

/// a script that is a command with arguments ends where what it stands in ends
pub fn h_script_cmd(scope: u64, call: u64, _c: u64, _d: u64) {
    let (l, r, il, ir) = [
        ("", "", "", ""),
        ("{", "}", "", ""),
        ("\\left(", "\\right]", "lr(\\( ", "\\] )"),
        ("\\sqrt[", "]{2}", "mitexsqrt(\\[", "\\],2 )"),
        ("\\begin{matrix}", "\\end{matrix}", "matrix(", ")"),
        ("\\begin{matrix}", "&3\\end{matrix}", "matrix(", "zws ,3 )"),
        ("\\begin{cases}4&", "\\\\5\\end{cases}", "cases(4 &", ",5 )"),
        ("\\text{$", "$}", "#textmath[#math.equation(block: false, $", "$);];"),
        ("\\frac{", "}{6}", "frac(", ",6 )"),
        ("{", "}", "", ""),
        ("\\text{\\(", "\\)}", "#textmath[#math.equation(block: false, $", "$);];"),
    ][scope as usize];
    let c = byte(&LOWER);
    let (s, i) = match call {
        0 => (B::new().s("\\frac"), B::new().s("frac()")),
        1 => (B::new().s("\\frac{").b(&[c]).s("}"), B::new().s("frac(").b(&[c]).s(" )")),
        2 => (B::new().s("\\displaystyle ").b(&[c]), B::new().s("mitexdisplay( ").b(&[c]).s(" )")),
        3 => (B::new().s("\\sqrt"), B::new().s("mitexsqrt()")),
        4 => (B::new().s("\\frac \\sqrt"), B::new().s("frac(mitexsqrt() )")),
        5 => (B::new().s("\\hat{").b(&[c]).s("}^\\frac"), B::new().s("hat(").b(&[c]).s(" ))^(frac()")),
        _ => (B::new().s("\\displaystyle\\frac"), B::new().s("mitexdisplay(frac() )")),
    };
    let (b, op, z) = (byte(&LOWER), byte(&m(b"^_")), byte(&LOWER));
    let src = B::new().s(l).b(&[b, op]).b(&s.0).s(r).s(if scope == 0 { "" } else { " " }).b(if scope == 0 { &[] } else { std::slice::from_ref(&z) });
    out(&src.0);
    let got = match conv(false, src.str()) {
        Ok(o) => o.into_bytes(),
        Err(e) => {
            out(e.as_bytes());
            fail("a script that is a command was refused")
        }
    };
    out(&got);
    let want = B::new().s(il).b(&[b, b' ', op, b'(']).b(&i.0).s(")").s(ir);
    let want = if scope == 0 { want } else { want.s(" ").b(&[z, b' ']) };
    check_same(&tight(&got), &tight(&want.0), "a script does not end with what it stands in");
}
