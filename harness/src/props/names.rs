//! C08: what is not in the specification is refused by name.
use super::sym::*;
use super::total::conv;
use mitex_spec_gen::DEFAULT_SPEC;

const PLACES: &[(&str, &str)] = &[
    ("", " x"),
    ("a{", "}b"),
    ("\\frac{", "}{b}"),
    ("x^", " b"),
    ("\\begin{matrix}a&", "\\\\b\\end{matrix}"),
    ("$", "$"),
    ("\\left(", "\\right)"),
    ("\\left", " a\\right)"),
    ("\\textbf{", "}"),
    ("\\begin{figure}\\caption{", "}\\end{figure}"),
    ("\\begin{tabular}{c}a&", "\\\\\\end{tabular}"),
    ("\\begin{itemize}\\item ", "\\end{itemize}"),
    ("\\newcommand{\\zzzz}[1]{#1}\\zzzz{", "}"),
    ("\\iftrue ", "\\fi"),
    ("\\displaystyle ", ""),
    ("a\\over ", ""),
    ("\\textcolor{red}{", "}"),
    ("\\sqrt[", "]{a}"),
    ("\\text{", "}"),
    ("\\begin{equation}a", "\\label{x}\\end{equation}"),
    ("\\begin{tabular}{c}", "\\end{tabular}"),
    ("\\iffalse\\else ", "\\fi"),
    ("a\\limits", ""),
    ("\\[", "\\]"),
    ("\\frac", "{b}"),
];
const LEXED: &[&str] = &["fi", "end", "else", "left", "right", "begin"];

/// a name of n symbolic characters that the specification does not hold
pub fn h_unknown(n: u64, env: u64, mode: u64, place: u64) {
    let l = or(LETTER, m(b"@"));
    // an environment's name may end in a star; n > 4: a longer name
    let (front, n) = if n > 4 { ("zqzqzq", n - 4) } else { ("", n) };
    let name = B::new().s(front).hn(&l, n - env).hn(&or(l, m(b"*")), env);
    let s = name.str();
    let (pre, post) = PLACES[place as usize];
    let b = B::new().s(pre);
    let b = if env == 1 {
        if DEFAULT_SPEC.get_env(s).is_some() {
            return;
        }
        b.s("\\begin{").s(s).s("}c\\end{").s(s).s("}").s(post)
    } else {
        if DEFAULT_SPEC.get_cmd(s).is_some() || s.starts_with("if") || LEXED.contains(&s) {
            return;
        }
        b.s("\\").s(s).s(post)
    };
    out(&b.0);
    let want = B::new().s(if env == 1 { "error: unknown environment: \\" } else { "error: unknown command: \\" }).s(s);
    match conv(mode == 1, b.str()) {
        Ok(o) => {
            out(o.as_bytes());
            fail("an unknown name is accepted")
        }
        Err(e) => {
            out(e.as_bytes());
            check_same(e.as_bytes(), &want.0, "the refusal does not name what is unknown")
        }
    }
}

/// a name of one character of `n` bytes that is no letter
pub fn h_unknown_char(n: u64, mode: u64, place: u64, _d: u64) {
    let mut name = B::new();
    match n {
        1 => name.0.push(byte(&minus(range(0, 127), or(LETTER, m(b"@\\\r\n"))))),
        2 => name.0.extend_from_slice(&[byte(&range(0xc2, 0xdf)), byte(&range(0x80, 0xbf))]),
        3 => name.0.extend_from_slice(&[byte(&range(0xe1, 0xef)), byte(&range(0x80, 0xbf)), byte(&range(0x80, 0xbf))]),
        _ => name.0.extend_from_slice(&[0xf0, byte(&range(0x90, 0xbf)), byte(&range(0x80, 0xbf)), byte(&range(0x80, 0xbf))]),
    }
    let Ok(s) = std::str::from_utf8(&name.0) else { return };
    let (pre, post) = PLACES[place as usize];
    if DEFAULT_SPEC.get_cmd(s).is_some() || "()[]".contains(s) || s.chars().all(char::is_whitespace) || pre == "\\left" {
        return;
    }
    let b = B::new().s(pre).s("\\").s(s).s(post);
    out(&b.0);
    let want = B::new().s("error: unknown command: \\").s(s);
    match conv(mode == 1, b.str()) {
        Ok(o) => {
            out(o.as_bytes());
            fail("an unknown name is accepted")
        }
        Err(e) => {
            out(e.as_bytes());
            check_same(e.as_bytes(), &want.0, "the refusal does not name what is unknown")
        }
    }
}

/// a known name made unknown by a symbolic letter or star: in front, behind, in place of its last letter
pub fn h_near(part: u64, env: u64, mode: u64, how: u64) {
    let mut l: Vec<&str> = DEFAULT_SPEC
        .items()
        .filter(|(_, i)| matches!(i, mitex_spec::CommandSpecItem::Env(_)) == (env == 1))
        .map(|(k, _)| k)
        .filter(|k| k.bytes().all(|c| c.is_ascii_alphabetic()))
        .collect();
    l.sort_unstable();
    let step = if env == 1 { 1 } else { 16 };
    let l: Vec<&str> = l.into_iter().skip(part as usize).step_by(step).collect();
    let k = l[split(choose(l.len() as u8), l.len() as u8) as usize];
    let x = byte(&if env == 1 && how != 0 { or(LETTER, m(b"*")) } else { LETTER });
    let mut name = k.as_bytes().to_vec();
    match how {
        0 => name.insert(0, x),
        1 => name.push(x),
        2 => *name.last_mut().unwrap() = x,
        _ => name.extend_from_slice(&[byte(&LETTER), x]),
    }
    let s = text(&name);
    let b = if env == 1 {
        if DEFAULT_SPEC.get_env(s).is_some() {
            return;
        }
        B::new().s("\\begin{").s(s).s("}c\\end{").s(s).s("}")
    } else {
        if DEFAULT_SPEC.get_cmd(s).is_some() || s.starts_with("if") || LEXED.contains(&s) {
            return;
        }
        B::new().s("\\").s(s).s("{c}")
    };
    out(&b.0);
    let want = B::new().s(if env == 1 { "error: unknown environment: \\" } else { "error: unknown command: \\" }).s(s);
    match conv(mode == 1, b.str()) {
        Ok(o) => {
            out(o.as_bytes());
            fail("an unknown name is accepted")
        }
        Err(e) => {
            out(e.as_bytes());
            check_same(e.as_bytes(), &want.0, "the refusal does not name what is unknown")
        }
    }
}
