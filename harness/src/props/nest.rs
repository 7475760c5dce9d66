//! C33: constructs nest.
use super::sym::*;
use super::total::conv;

#[derive(Clone, Copy, PartialEq)]
enum E {
    None,
    Matrix,
    Cases,
    Math,
    Curly,
    Stack,
}
/// what is open
#[derive(Clone, Copy)]
struct F {
    close: &'static str,
    image: &'static str,
    env: E,
    math: bool,
    /// a group that stands for something even if nothing is in it
    group: bool,
    /// `&` and `\\` have a place here
    cells: bool,
    lines: bool,
    /// `\item` has
    empty: bool,
}
const fn f(close: &'static str, image: &'static str, env: E, math: bool, group: bool, cells: bool, lines: bool) -> F {
    F { close, image, env, math, group, cells, lines, empty: true }
}
/// openings in a formula: source and image
const MATH: &[(&str, &str, F)] = &[
    ("\\begin{matrix}", "matrix(", f("\\end{matrix}", ")", E::Matrix, true, false, true, true)),
    ("\\begin{cases}", "cases(", f("\\end{cases}", ")", E::Cases, true, false, true, true)),
    ("\\begin{aligned}", "aligned(", f("\\end{aligned}", ")", E::Math, true, false, true, true)),
    ("\\begin{array}{lr}", "mitexarray(arg0: l r ,", f("\\end{array}", ")", E::Matrix, true, false, true, true)),
    ("{", "", f("}", "", E::Curly, true, true, false, true)),
    ("\\left(", "lr(\\( ", f("\\right]", "\\] )", E::None, true, false, false, false)),
    ("\\substack{", "substack(", f("}", ")", E::Stack, true, true, false, true)),
    ("\\frac{", "frac(", f("}{b}", ",b )", E::Curly, true, true, false, false)),
    ("\\sqrt[n]{", "mitexsqrt(\\[n \\],", f("}", ")", E::Curly, true, true, false, false)),
    ("x^{", "x ^(", f("}", ")", E::Curly, true, true, false, false)),
    ("\\text{", "#textmath[", f("}", "];", E::None, false, false, false, false)),
    ("\\mathrm{", "upright(", f("}", ")", E::Curly, true, true, false, false)),
];
/// openings in running text
const TEXT_: &[(&str, &str, F)] = &[
    ("\\textbf{", "#strong[", f("}", "];", E::None, false, false, false, false)),
    ("\\section{", "#heading(level: 1)[", f("}", "];", E::None, false, false, false, false)),
    ("\\begin{quote}", "#quote(block: true)[", f("\\end{quote}", "];", E::None, false, false, true, true)),
    ("{", "", f("}", "", E::None, false, false, false, false)),
    ("$", "#math.equation(block: false, $", f("$", "$);", E::None, true, false, false, false)),
    ("\\[", "$ ", f("\\]", " $", E::None, true, false, false, false)),
    ("\\begin{equation}", "$ aligned(", f("\\end{equation}", ") $", E::Math, true, false, true, true)),
    ("\\begin{matrix}", "$ matrix(", f("\\end{matrix}", ") $", E::Matrix, true, false, true, true)),
    ("\\footnote{", "#footnote[", f("}", "];", E::None, false, false, false, false)),
];
pub const MATHS: u64 = MATH.len() as u64;
pub const TEXTS: u64 = TEXT_.len() as u64;

/// `first` is opened, then n operations, then everything is closed
pub fn h_nest(n: u64, mode: u64, first: u64, second: u64) {
    let mut st: Vec<F> = Vec::with_capacity(8);
    st.push(f("", "", E::None, mode == 0, false, true, true));
    let mut src = B::new();
    let mut want = B::new();
    // a line has just begun
    let mut fresh = false;
    let mut forced = [first, second];
    let mut i = 0;
    while i < n {
        let top = *st.last().unwrap();
        let list = if top.math { MATH } else { TEXT_ };
        let op = if i < 2 && forced[i as usize] < 99 {
            let k = forced[i as usize];
            forced[i as usize] = 99;
            if k >= list.len() as u64 {
                return;
            }
            6 + k as u8
        } else {
            let w = 6 + list.len() as u8;
            split(choose(w), w)
        };
        i += 1;
        let last = src.0.last().copied().unwrap_or(0);
        match op {
            0 => {
                let c = byte(&or(LOWER, DIGIT));
                src = src.b(&[c]);
                want = want.b(&[c]).s(if top.math { " " } else { "" });
            }
            1 => {
                if !top.cells {
                    return;
                }
                src = src.s("&");
                want = want.s(if top.env == E::Matrix { "zws ," } else { "&" });
            }
            2 => {
                if !top.lines {
                    return;
                }
                src = src.s("\\\\");
                want = want.s(match top.env {
                    E::Matrix => "zws ;",
                    E::Cases => ",",
                    E::Curly => "",
                    _ => "\\ ",
                });
            }
            3 => {
                if last == b' ' {
                    return;
                }
                src = src.s(" ");
                if !fresh {
                    want = want.s(" ");
                }
                fresh = false;
                continue;
            }
            4 => {
                if last == b'\n' {
                    return;
                }
                let c = byte(&LOWER);
                src = if flag() { src.s("%").b(&[c]).s("\n") } else { src.s("\n") };
                want = want.s("\n");
                fresh = true;
                continue;
            }
            5 => {
                if st.len() == 1 {
                    return;
                }
                // nothing between two marks: they are one
                if top.close == "$" && last == b'$' {
                    return;
                }
                st.pop();
                src = src.s(top.close);
                want = want.s(if top.group && top.empty { "zws " } else { "" }).s(top.image);
            }
            k => {
                let (o, w, mut new) = list[k as usize - 6];
                // the marks of two formulas would be one
                if o == "$" && last == b'$' {
                    return;
                }
                // what is inside a delimited group stands where the group stands
                if o == "\\left(" {
                    new.env = top.env;
                }
                // groups inside a stack are lines of the stack
                if new.env == E::Curly && top.env == E::Stack {
                    new.env = E::Stack;
                }
                if let Some(t) = st.last_mut() {
                    t.empty = false;
                }
                st.push(new);
                src = src.s(o);
                want = want.s(w);
                fresh = false;
                continue;
            }
        }
        if let Some(t) = st.last_mut() {
            t.empty = false;
        }
        fresh = false;
    }
    while st.len() > 1 {
        let t = st.pop().unwrap();
        if t.close == "$" && src.0.last() == Some(&b'$') {
            return;
        }
        src = src.s(t.close);
        want = want.s(if t.group && t.empty { "zws " } else { "" }).s(t.image);
    }
    out(&src.0);
    match conv(mode == 1, src.str()) {
        Ok(o) => {
            out(o.as_bytes());
            check_same(o.as_bytes(), &want.0, "nested constructs do not convert to the nested conversions")
        }
        Err(e) => {
            out(e.as_bytes());
            fail("nested constructs were refused")
        }
    }
}
