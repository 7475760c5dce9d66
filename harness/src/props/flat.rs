//! Plain running text: every character's image in the output.
use super::sym::*;
use super::total::conv;

/// what the converter must write for input made of ordinary characters only,
/// i.e. without commands, formulas and (in math) scripts and groups
pub fn image(s: &str, math: bool, o: &mut Vec<u8>) {
    let mut after_break = false;
    let mut in_comment = false;
    let mut dropping = false;
    let mut t = [0u8; 4];
    for c in s.chars() {
        let brk = c == '\n' || c == '\r';
        if in_comment {
            if !brk {
                continue;
            }
            in_comment = false;
        }
        if brk {
            o.push(c as u8);
            after_break = true;
            dropping = false;
            continue;
        }
        if c.is_whitespace() {
            // the blanks that start a line are not content
            dropping |= after_break;
            after_break = false;
            if !dropping {
                o.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
            }
            continue;
        }
        after_break = false;
        dropping = false;
        match c {
            '%' => in_comment = true,
            '{' | '}' => {}
            ',' | '/' | '^' | '_' | '#' | '*' | '@' | '"' | ';' | '(' | ')' | '[' | ']' => {
                o.push(b'\\');
                o.push(c as u8);
            }
            '~' if math => o.extend_from_slice(b"space.nobreak "),
            '~' => o.extend_from_slice(b"\\~"),
            '&' | '\'' => o.push(c as u8),
            _ => {
                // raw text, labels, headings and lists of Typst
                if !math && matches!(c, '`' | '<' | '=' | '+') {
                    o.push(b'\\');
                }
                o.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                if math {
                    o.push(b' ');
                }
            }
        }
    }
}

fn go(s: &str, math: bool) {
    out(s.as_bytes());
    let mut want = Vec::with_capacity(64);
    image(s, math, &mut want);
    match conv(!math, s) {
        Ok(o) => {
            out(o.as_bytes());
            check_same(o.as_bytes(), &want, "output differs from the image of the characters")
        }
        Err(e) => {
            out(e.as_bytes());
            fail("plain text refused")
        }
    }
}
const BAD: Mask = m(b"\\${}");
const BADMATH: Mask = m(b"\\${}^_'");

/// n symbolic bytes of valid UTF-8; a: math
pub fn h_flat(n: u64, math: u64, _c: u64, _d: u64) {
    let bad = if math == 1 { &BADMATH } else { &BAD };
    let ok = minus(range(0, 255), *bad);
    let mut b = Vec::with_capacity(16);
    for _ in 0..n {
        b.push(byte(&ok));
    }
    let Ok(s) = std::str::from_utf8(&b) else { return };
    go(s, math == 1);
}
/// n symbolic ASCII bytes between fixed words, braces around
pub fn h_flat_ctx(n: u64, math: u64, ctx: u64, _d: u64) {
    let bad = if math == 1 { &BADMATH } else { &BAD };
    let ok = minus(range(0, 127), *bad);
    let (pre, post) = [("a", "b"), ("a \n", " b"), ("é", "中"), ("a% c", "\n"), ("12,", ".")][ctx as usize];
    let b = B::new().s(pre).hn(&ok, n).s(post);
    go(b.str(), math == 1);
}
/// n symbolic characters of two or (w: 3) three bytes in a row between fixed words
pub fn h_flat_wide(n: u64, math: u64, ctx: u64, w: u64) {
    let (pre, post) = [("", ""), ("a", "b"), ("é", "中"), ("%ü", "\n")][ctx as usize];
    let mut b = B::new().s(pre);
    for _ in 0..n {
        if w == 3 {
            b.0.push(byte(&range(0xe0, 0xef)));
            b.0.push(byte(&range(0x80, 0xbf)));
        } else {
            b.0.push(byte(&range(0xc2, 0xdf)));
        }
        b.0.push(byte(&range(0x80, 0xbf)));
    }
    b = b.s(post);
    let Ok(s) = std::str::from_utf8(&b.0) else { return };
    go(s, math == 1);
}
/// a word of `n` to `n + 15` characters, of which those at both ends and in the middle are any letters;
/// `ctx` 0: alone, 1: between other text, 2: of two bytes each; `what` 1: blanks, 2: digits and operators in place of letters
pub fn h_long(n: u64, math: u64, ctx: u64, what: u64) {
    let n = n as usize + split(choose(16), 16) as usize;
    let c = byte(&[LOWER, m(b" \t"), minus(or(DIGIT, m(b"-+.,;/*")), if math == 1 { m(b"") } else { m(b"+") })][what as usize]);
    let mut b = B::new().s(if ctx == 1 { "1 " } else { "" });
    let wide = "é";
    for i in 0..n {
        if i == 0 || i == n / 2 || i + 1 == n {
            b.0.push(c);
        } else if ctx == 2 {
            b = b.s(wide);
        } else {
            b.0.push([b'x', b' ', b'1'][what as usize]);
        }
    }
    if ctx == 1 {
        b = b.s("\n.");
    }
    go(b.str(), math == 1);
}
/// a text that Typst reads as a list: a dash or a number at the start of a line, then a blank
pub fn h_marker(k: u64, _b: u64, _c: u64, _d: u64) {
    let (t, want) = [("- b", "\\- b"), ("1. b", "1\\. b")][k as usize];
    out(t.as_bytes());
    match conv(true, t) {
        Ok(o) => {
            out(o.as_bytes());
            check(o == want, "a dash or number at the start of a line is read as a list item")
        }
        Err(e) => {
            out(e.as_bytes());
            fail("plain text refused")
        }
    }
}
/// text mode, symbolic bytes around and inside a group
pub fn h_group(n: u64, k: u64, _c: u64, _d: u64) {
    let ok = minus(range(0, 127), m(b"\\${}%^_"));
    let b = B::new().hn(&ok, n).s("{").hn(&ok, k).s("}").hn(&ok, 1);
    go(b.str(), false);
}

/// (whole input is a formula, the place is in a formula, before, behind, what may not stand there)
pub type Place = (bool, bool, &'static str, &'static str, &'static [u8]);
pub const IN: &[Place] = &[
    (true, true, "\\begin{matrix}u&", "\\\\v\\end{matrix}", b"&"),
    (true, true, "\\begin{cases}u&", "\\\\v\\end{cases}", b"&"),
    (true, true, "\\begin{aligned}u&=", "\\\\v\\end{aligned}", b""),
    (true, true, "\\begin{array}{lc}u&", "\\\\v\\end{array}", b"&"),
    (true, true, "u_{", "}v", b""),
    (true, true, "{u{", "}}v", b""),
    (true, true, "\\frac{u", "}{v}", b""),
    (true, true, "\\sqrt[u", "]{v}", b"[]"),
    (true, true, "\\left(u", "v\\right)", b""),
    (true, false, "\\text{u", "v}", b""),
    (true, true, "\\text{u$", "$v}", b""),
    (true, true, "\\binom{u}{{", "}}", b""),
    (true, true, "u\\over ", "", b"&"),
    (true, true, "\\displaystyle ", "", b"&"),
    (false, true, "u $", "$ v", b""),
    (false, true, "u $$", "$$ v", b""),
    (false, true, "u \\(", "\\) v", b""),
    (false, true, "u \\[", "\\] v", b""),
    (false, true, "\\begin{equation}u", "v\\end{equation}", b""),
    (false, true, "\\begin{align}u&=", "\\\\v\\end{align}", b""),
    (false, true, "$\\begin{cases}u&", "\\\\v\\end{cases}$", b"&"),
    (false, false, "\\begin{tabular}{cc}u&", "\\\\v&w\\end{tabular}", b"&"),
    (false, true, "\\begin{tabular}{cc}u&$", "$\\\\v&w\\end{tabular}", b""),
    (false, false, "\\begin{itemize}\\item u", "\\item v\\end{itemize}", b"\n\r"),
    (false, true, "\\begin{enumerate}\\item u$", "$\\item v\\end{enumerate}", b"\n\r"),
    (false, false, "\\begin{quote}u", "v\\end{quote}", b""),
    (false, true, "\\begin{quote}u$", "$v\\end{quote}", b""),
    (false, false, "\\textbf{u", "v}", b""),
    (false, true, "\\textbf{u$", "$v}", b""),
    (false, false, "\\begin{figure}\\caption{u", "v}\\end{figure}", b""),
    (false, true, "\\begin{figure}\\caption{u$", "$v}\\end{figure}", b""),
    (false, false, "\\section{u", "v}", b"\n\r"),
    (false, false, "u{{", "}}v", b""),
    (true, true, "\\substack{u ", " v\\\\w}", b""),
    (true, true, "\\overset{u}{", "v}", b""),
    (true, true, "\\left[u\\middle|", "v\\right.", b""),
    (true, true, "\\textcolor{red}{u", "v}", b""),
    (false, false, "\\textcolor{red}{u", "v}", b""),
    (false, false, "\\footnote{u", "v}", b""),
    (false, false, "\\begin{figure}u", "v\\end{figure}", b""),
    (false, true, "\\begin{figure}u$$", "$$v\\end{figure}", b""),
    (false, false, "\\begin{figure}\\begin{tabular}{c}", "\\end{tabular}\\end{figure}", b"&"),
];

/// n symbolic characters inside a construct: their images stand where a marker's image would
pub fn h_flat_in(n: u64, place: u64, _c: u64, _d: u64) {
    let (whole, math, pre, post, not) = IN[place as usize];
    let ok = minus(minus(range(0, 127), m(not)), if math { or(BADMATH, m(b"%")) } else { m(b"\\${}%") });
    let frame = B::new().s(pre).s("uQv").s(post);
    let b = B::new().s(pre).s("u").hn(&ok, n).s("v").s(post);
    out(&b.0);
    let (Ok(f), r) = (conv(!whole, frame.str()), conv(!whole, b.str())) else { fail("a plain letter is refused") };
    let (mut mark, mut want) = (Vec::new(), Vec::with_capacity(64));
    image("uQv", math, &mut mark);
    let at = f.as_bytes().windows(mark.len()).position(|w| w == &mark[..]);
    let Some(at) = at else { fail("a letter's image is missing") };
    want.extend_from_slice(&f.as_bytes()[..at]);
    let x = &b.str()[pre.len()..b.0.len() - post.len()];
    image(x, math, &mut want);
    want.extend_from_slice(&f.as_bytes()[at + mark.len()..]);
    match r {
        Ok(o) => {
            out(o.as_bytes());
            check_same(o.as_bytes(), &want, "a character inside a construct is not its image")
        }
        Err(e) => {
            out(e.as_bytes());
            fail("plain text inside a construct refused")
        }
    }
}
