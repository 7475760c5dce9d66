//! C01: every input is converted or refused, nothing else.
use super::sym::*;

pub fn conv(text_mode: bool, s: &str) -> Result<String, String> {
    if text_mode {
        mitex::convert_text(s, None)
    } else {
        mitex::convert_math(s, None)
    }
}
pub fn put(mode: u64, s: &str) {
    out(s.as_bytes());
    let r = conv(mode == 1, s);
    match r {
        Ok(o) => out(o.as_bytes()),
        Err(e) => {
            check(!e.is_empty(), "a refusal carries no message");
            out(e.as_bytes())
        }
    }
}
/// n fully symbolic bytes, any valid UTF-8
pub fn h_any(n: u64, mode: u64, _c: u64, _d: u64) {
    let b = bytes(n as usize);
    let Ok(s) = std::str::from_utf8(&b) else { return };
    put(mode, s);
}

pub const ATOMS: &[&str] = &[
    "{", "}", "[", "]", "(", ")", "$", "^", "_", "'", "&", "\\\\", " ", "\n", "a", "12", "#1", "~", "*", "|",
    "%c\n", "$$", "\\(", "\\)", "\\[", "\\]", "\\left", "\\right", "\\frac", "\\sqrt", "\\over", "\\sum", "\\alpha",
    "\\displaystyle", "\\limits", "\\substack", "\\label", "\\text", "\\color", "\\textcolor", "\\includegraphics",
    "\\caption", "\\item", "\\iffalse", "\\iftypst", "\\iftrue", "\\else", "\\fi", "\\newcommand", "\\begin", "\\end",
    "\\begin{", "\\begin{matrix}", "\\end{matrix}", "\\begin{array}", "\\end{array}", "\\begin{tabular}",
    "\\end{tabular}", "\\begin{figure}", "\\end{figure}", "\\begin{itemize}", "\\end{itemize}", "\\begin{quote}",
    "\\end{quote}", "\\zz", "{lc}", "{a}", "\\newenvironment", "{\\f}", "\\f", "\\", "\\hline", "\\textbf", "\\footnote",
    "\\tag", "\\ref", "\\binom", "\\hspace", "\\mathrm", "\\middle", "\\big", "\\not", "\\bf", "é", "\\é",
    "\\cases", "\\matrix", "\\renewcommand", "\\def", "\\let", "\\DeclareMathOperator", "\\operatorname",
];

pub fn atom() -> &'static str {
    pick(ATOMS)
}

/// n tokens, each any of the atoms; `pre`: a fixed context
pub fn h_tok(n: u64, mode: u64, pre: u64, _d: u64) {
    let mut b = B::new().s(CTX[pre as usize].0);
    for i in 0..n {
        let a = atom();
        // a macro that calls itself has no end: not claimed
        let call = a.contains("\\f") && !a.starts_with("\\f") || a == "\\f";
        if pre == 8 && call || pre == 4 && call && (i == 0 || b.0.ends_with(b"{") || b.0.ends_with(b"[") || b.0.ends_with(b" ") || b.0.ends_with(b"\n")) {
            return;
        }
        b = b.s(a);
    }
    b = b.s(CTX[pre as usize].1);
    put(mode, b.str());
}
pub const CTX: &[(&str, &str)] = &[
    ("", ""),
    ("\\begin{tabular}{lc}", "\\end{tabular}"),
    ("\\begin{figure}", "\\end{figure}"),
    ("\\begin{itemize}\\item", "\\end{itemize}"),
    ("\\newcommand{\\f}", ""),
    ("\\newenvironment{g}", "\\begin{g}\\end{g}"),
    ("$\\left(", "\\right)$"),
    ("\\begin{matrix}", "\\end{matrix}"),
    ("\\newcommand{\\f}[1]{", "}\\f{\\item}\\f a"),
    ("\\includegraphics", "{a}"),
    ("\\color", ""),
    ("\\begin{array}", "\\end{array}"),
    ("{", "}"),
    ("\\iffalse", "\\fi"),
];

/// a definition with any count of arguments and a body of n pieces, called with anything
pub fn h_defs(n: u64, mode: u64, form: u64, _d: u64) {
    let count = B::new().s(pick(&["", "[1]", "[2]", "[0]", "[9]"]));
    let mut body = B::new();
    for _ in 0..n {
        body = match split(choose(8), 8) {
            0 => body.s("#"),
            1 => body.s("#").h(&or(DIGIT, m(b"x"))),
            2 => body.s("##"),
            3 => body.s(pick(&["{", "}"])),
            4 => body.s("\\mitexrecurse"),
            5 => body.s(pick(&["a", " ", "["])),
            6 => body.s("{#1}#"),
            _ => body.s("\\h"),
        };
    }
    let call = pick(&["\\f", "\\f a", "\\f{a}{b}c", "\\f{a", "\\f{\\f{a}}\\f"]);
    let b = match form {
        0 => B::new().s("\\newcommand{\\f}").b(&count.0).s("{").b(&body.0).s("}").s(call),
        1 => B::new().s("\\newenvironment{f}").b(&count.0).s("{").b(&body.0).s("}{#1}\\begin{f}").s(if call.len() > 2 { &call[2..] } else { "" }).s("\\end{f}"),
        2 => B::new().s("\\newenvironment{f}").b(&count.0).s("{a}{").b(&body.0).s("}\\begin{f}").s(if call.len() > 2 { &call[2..] } else { "" }).s("\\end{f}"),
        _ => B::new().s("\\newcommand{\\h}[2]{#2#1}\\newcommand*\\f").b(&count.0).s(" {").b(&body.0).s("}{").s(call).s("}"),
    };
    put(mode, b.str());
}
/// n bytes of any value where an argument is read as text or looked at by hand
pub fn h_argtext(n: u64, mode: u64, place: u64, _d: u64) {
    const P: &[(&str, &str)] = &[
        ("\\includegraphics[", "]{a}"), ("\\includegraphics[width=", "]{a}"), ("\\includegraphics{", "}"), ("\\begin{equation}a\\label{", "}\\end{equation}"),
        ("\\begin{tabular}{", "}a&b\\end{tabular}"), ("\\begin{array}{", "}a\\end{array}"), ("\\color[", "]{red}a"), ("{\\color{", "}a}"), ("\\textcolor{", "}{a}"),
        ("\\colorbox[", "]{b}{c}"), ("\\newcommand{\\f}[", "]{a}\\f b"), ("\\newcommand{", "}{a}\\f"), ("\\left", "a\\right)"), ("\\left(a\\right", ""),
        ("\\begin{figure}[", "]a\\end{figure}"), ("\\operatorname{", "}"), ("\\iftypst ", "\\fi"), ("\\sqrt[", "]{a}"), ("\\newenvironment{", "}{a}{b}"), ("\\begin{itemize}\\item[", "]\\end{itemize}"),
        ("\\begin{", "}a\\end{matrix}"), ("\\textcolor", "{a}"), ("\\includegraphics", "{a}"), ("\\ref{", "}"), ("\\frac", "c"), ("\\newcommand", "{a}\\f"), ("\\hspace{", "}"), ("\\caption{", "}"),
    ];
    let (l, r) = P[place as usize];
    let b = B::new().s(l).b(&bytes(n as usize)).s(r);
    if std::str::from_utf8(&b.0).is_err() {
        return;
    }
    put(mode, b.str());
}
pub const ARGPLACES: usize = 28;
