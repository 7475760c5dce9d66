//! C36: delimited groups.
use super::sym::*;
use super::total::conv;

const DELIM: &[&str] = &[
    "(", ")", "[", "]", "|", "/", "<", ">", ".", "\\{", "\\}", "\\|", "\\langle", "\\rangle", "\\lbrace", "\\rbrace", "\\lfloor", "\\rceil", "\\uparrow", "\\Vert", "\\lvert", "*", "!", "中",
];
const AROUND: &[(&str, &str, &str, &str)] = &[
    ("", "", "", ""),
    ("x ", "^2", "x ", "^(2 )"),
    ("\\frac{", "}{3}", "frac(", ",3 )"),
    ("\\begin{matrix}4&", "\\\\5\\end{matrix}", "matrix(4 zws ,", "zws ;5 )"),
    ("\\left[", "\\right]", "lr(\\[ ", "\\] )"),
    ("{", "}y", "", "y "),
    ("x^{", "}", "x ^(", ")"),
    ("\\text{$", "$}", "#textmath[#math.equation(block: false, $", "$);];"),
    ("\\displaystyle ", "\\\\6", "mitexdisplay( ", "\\ 6 )"),
];
fn cv(b: &[u8]) -> Vec<u8> {
    match conv(false, text(b)) {
        Ok(o) => o.into_bytes(),
        Err(e) => {
            out(b);
            out(e.as_bytes());
            fail("a part of a delimited group was refused alone")
        }
    }
}
/// the delimiter in the output: `.` stands for none
fn delimiter(d: &str) -> Vec<u8> {
    if d == "." {
        vec![]
    } else {
        cv(d.as_bytes())
    }
}
fn content(b: &mut Vec<u8>) {
    let c = byte(&LOWER);
    match split(choose(11), 11) {
        0 => b.push(c),
        1 => b.extend_from_slice(&[byte(&DIGIT), c]),
        2 => b.extend_from_slice(&[b'.', byte(&DIGIT)]),
        3 => b.extend_from_slice(&[b'(', c, b')']),
        4 => b.extend_from_slice(&[b'{', c, byte(&m(b" +")), c, b'}']),
        5 => b.extend_from_slice(&[&b"\\frac1"[..], &[c]].concat()),
        6 => b.extend_from_slice(&[c, b'^', byte(&DIGIT)]),
        7 => {}
        8 => b.extend_from_slice(&[&b"\\begin{matrix}u&"[..], &[c], b"\\\\w\\end{matrix}"].concat()),
        9 => b.extend_from_slice(&[&b"\\text{"[..], &[c], b" u}"].concat()),
        _ => b.extend_from_slice(&[b'%', c, b'\n']),
    }
}
/// blanks say nothing but that there is one
fn squeeze(b: &[u8]) -> Vec<u8> {
    let mut o: Vec<u8> = Vec::with_capacity(b.len());
    for &c in b {
        let c = if c == b'\n' || c == b'\t' { b' ' } else { c };
        if c == b' ' && matches!(o.last(), None | Some(b' ' | b'(' | b')' | b';')) {
            continue;
        }
        if c == b')' && o.last() == Some(&b' ') {
            o.pop();
        }
        o.push(c);
    }
    o
}
/// `\left d X \right e` with blanks and comments before the delimiters; `n`: 2 for one group inside
pub fn h_lr(n: u64, around: u64, left: u64, _d: u64) {
    let (pre, post, ipre, ipost) = AROUND[around as usize];
    let k = DELIM.len() as u8;
    let mut src = B::new().s(pre);
    let mut want = B::new().s(ipre);
    let mut ends = vec![];
    for i in 0..n {
        let d = if i == 0 { DELIM[left as usize] } else { pick(&["(", ".", "\\langle", "\\{"]) };
        let gap = if i == 0 { pick(&["", " ", "%c\n", "\n", "\t%c\n \n"]) } else { "" };
        src = src.s("\\left").s(gap).s(d);
        want = want.s("lr(").b(&delimiter(d)).s(" ");
        let mut x = if d.len() > 2 && d.starts_with('\\') { b" ".to_vec() } else { vec![] };
        content(&mut x);
        src = src.b(&x);
        want = want.b(&cv(&x));
        let e = if i > 0 || n > 1 { pick(&[")", ".", "\\rangle"]) } else { DELIM[split(choose(k), k) as usize] };
        let gap = if n == 1 { pick(&["", " ", "%c\n", "\n"]) } else { "" };
        ends.push((e, gap));
    }
    for (e, gap) in ends.into_iter().rev() {
        src = src.s("\\right").s(gap).s(e);
        want = want.b(&delimiter(e)).s(" )");
        if e.len() > 2 && e.starts_with('\\') {
            src = src.s(" ");
            want = want.s(" ");
        }
    }
    let (src, want) = (src.s(post), want.s(ipost));
    out(&src.0);
    match conv(false, src.str()) {
        Ok(o) => {
            out(o.as_bytes());
            check_same(&squeeze(o.as_bytes()), &squeeze(&want.0), "a delimited group does not hold its delimiters and content")
        }
        Err(e) => {
            out(e.as_bytes());
            fail("a delimited group was refused")
        }
    }
}
