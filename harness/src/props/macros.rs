//! Macro expansion against substitution by hand.
use super::sym::*;
use super::total::conv;

/// conversions of two texts must agree (a refusal of either only with a refusal of the other)
pub fn agree(math: bool, a: &str, b: &str, what: &str) {
    out(a.as_bytes());
    out(b.as_bytes());
    let (x, y) = (conv(!math, a), conv(!math, b));
    match (&x, &y) {
        (Ok(x), Ok(y)) => {
            out(x.as_bytes());
            check_same(x.as_bytes(), y.as_bytes(), what)
        }
        (Err(_), Err(_)) => cover(1),
        (Ok(o), Err(e)) | (Err(e), Ok(o)) => {
            out(o.as_bytes());
            out(e.as_bytes());
            fail(what)
        }
    }
}
/// the same, where both must convert
pub fn agree_ok(math: bool, a: &str, b: &str, what: &str) {
    out(a.as_bytes());
    out(b.as_bytes());
    let (x, y) = (conv(!math, a), conv(!math, b));
    match (&x, &y) {
        (Ok(x), Ok(y)) => {
            out(x.as_bytes());
            check_same(x.as_bytes(), y.as_bytes(), what)
        }
        (Err(e), _) | (_, Err(e)) => {
            out(e.as_bytes());
            fail(what)
        }
    }
}

#[derive(Clone)]
pub enum P {
    Lit(Vec<u8>),
    Arg(usize),
    Braced(usize),
}
/// one piece of a macro body; `math` allows scripts and commands with arguments
fn piece(nargs: usize, math: bool) -> P {
    let kinds = if nargs == 0 { 4 } else { 6 };
    match split(choose(kinds), kinds) {
        0 => P::Lit(vec![byte(&LOWER)]),
        1 => P::Lit(pick(&[&b" "[..], b"\\alpha ", b"{}", b"{b c}", b"1", b",", b"(", b"[", b"]"]).to_vec()),
        2 => P::Lit(if math { pick(&[&b"x^2"[..], b"\\frac{1}{a}", b"_{a}", b"\\sqrt[3]{b}"]) } else { pick(&[&b"\\textbf{u}"[..], b"$v$", b"~", b"\\ref{k}"]) }.to_vec()),
        3 => P::Lit(vec![byte(&LOWER), byte(&or(LOWER, m(b" &-")))]),
        4 => P::Arg(split(choose(nargs as u8), nargs as u8) as usize),
        _ => P::Braced(split(choose(nargs as u8), nargs as u8) as usize),
    }
}
/// an argument: how it is written at the call, and what it stands for
fn argument(b: &mut Vec<u8>, math: bool, last: bool, few: bool, tail: &mut Vec<u8>) -> Vec<u8> {
    // what TeX skips in front of an argument
    if few && !last {
        put(b, &[pick(&[&b""[..], b"%c\n", b"\n "])]);
    }
    // the last unbraced character may begin a longer word, which goes on behind the call
    let kinds = if last { 9 } else { 8 };
    // few: only a braced argument, a character of a word, the word that goes on
    let kind = if few { pick(&[0, 2, if last { 8 } else { 4 }]) } else { split(choose(kinds), kinds) };
    match kind {
        6 => {
            let v = pick(if math { &["é", "😀", "|", "[", "]", "'"] } else { &["中", "/", "*", ",", "~", "["] }).as_bytes().to_vec();
            put(b, &[&v]);
            v
        }
        8 => {
            let v = pick(&["é", "中", "a", "7"]).as_bytes().to_vec();
            put(b, &[b" ", &v]);
            *tail = pick(&["b", "é", "1中"]).as_bytes().to_vec();
            v
        }
        0 => {
            let v = vec![byte(&LOWER)];
            put(b, &[b"{", &v, b"}"]);
            v
        }
        1 => {
            let v = vec![byte(&LOWER), b' ', byte(&or(LOWER, DIGIT))];
            put(b, &[b" {", &v, b"}"]);
            v
        }
        2 => {
            // a bare character, split off a word
            let v = vec![byte(&or(LOWER, DIGIT))];
            put(b, &[b" ", &v]);
            v
        }
        3 => {
            let v = vec![byte(&LOWER)];
            put(b, &[b" ", &v, if last { b"" } else { b"\n" }]);
            v
        }
        4 => {
            put(b, &[b"\\%"]);
            b"\\%".to_vec()
        }
        5 => {
            let v = pick(&[if math { &b"\\frac{a}{b}^2"[..] } else { &b"\\textbf{a} {c}"[..] }, b"]", b"([", b" a", b"a ", b" ", b"%c\n a", b"{a}"]).to_vec();
            put(b, &[b"{", &v, b"}"]);
            v
        }
        _ => {
            put(b, &[b"{}"]);
            vec![]
        }
    }
}
fn put(b: &mut Vec<u8>, s: &[&[u8]]) {
    for x in s {
        b.extend_from_slice(x);
    }
}
fn body(nargs: usize, len: u64, math: bool, args: &[Vec<u8>], def: &mut Vec<u8>, subst: &mut Vec<u8>) {
    for _ in 0..len {
        match piece(nargs, math) {
            P::Lit(l) => {
                put(def, &[&l]);
                put(subst, &[&l]);
            }
            P::Arg(i) => {
                put(def, &[b"#", &[b'1' + i as u8]]);
                put(subst, &[&args[i]]);
            }
            P::Braced(i) => {
                put(def, &[b"{#", &[b'1' + i as u8], b"}"]);
                put(subst, &[b"{", &args[i], b"}"]);
            }
        }
    }
}
const FORMS: &[&[u8]] = &[b"\\newcommand{\\f}", b"\\newcommand*{\\f}", b"\\providecommand{\\f}", b"\\DeclareRobustCommand{\\f}", b"\\newcommand{\\f}{w#}\\renewcommand{\\f}", b"\\newcommand {\\f} ", b"\\newcommand%c\n{\\f}%c\n "];

/// `\newcommand{\f}[nargs]{body} pre \f args post` against `pre body[args] post`
pub fn h_expand(nargs: u64, len: u64, math: u64, form: u64) {
    let (math, n) = (math == 1, nargs as usize);
    let mut call = b"\\f".to_vec();
    let mut tail = vec![];
    let args: Vec<Vec<u8>> = (0..n).map(|i| argument(&mut call, math, i + 1 == n, form & 8 != 0, &mut tail)).collect();
    let (mut def, mut sub) = (vec![], vec![]);
    body(n, len, math, &args, &mut def, &mut sub);
    let (pre, post) = pick(&[(&b""[..], &b""[..]), (b"a ", b" b")]);
    let mut x = FORMS[(form & 7) as usize].to_vec();
    if n > 0 {
        put(&mut x, &[b"[", &[b'0' + n as u8], b"]"]);
    }
    put(&mut x, &[b"{", &def, b"}", pre, &call, &tail, post]);
    // a control word takes no space with it here: keep one only where it was written
    let mut y = pre.to_vec();
    put(&mut y, &[&sub, &tail, post]);
    agree(math, text(&x), text(&y), "a macro call is not its expansion");
}

/// n steps, each a definition of `\f` or `\g` by any means or a call of either, against a map of names
pub fn h_redef(n: u64, mode: u64, _c: u64, _d: u64) {
    #[derive(Clone, Copy)]
    enum Body {
        Letter(u8),
        Other,
    }
    const HOW: &[(&str, u8)] = &[("\\newcommand", 0), ("\\newcommand*", 0), ("\\DeclareRobustCommand", 3), ("\\DeclareRobustCommand*", 3), ("\\renewcommand", 1), ("\\renewcommand*", 1), ("\\providecommand", 2), ("\\providecommand*", 2)];
    let mut defs: [Option<Body>; 2] = [None, None];
    let (mut src, mut want, mut bad) = (vec![], vec![], false);
    let text_mode = mode == 1;
    for step in 0..n {
        let who = split(choose(2), 2);
        let name: &[u8] = [&b"\\f"[..], b"\\g"][who as usize];
        if step > 0 && split(choose(2), 2) == 1 {
            put(&mut src, &[name, b"."]);
            let mut b = defs[who as usize];
            if let Some(Body::Other) = b {
                // a body is read when it is used
                b = defs[0];
            }
            match b {
                Some(Body::Letter(l)) => {
                    want.push(l);
                    if !text_mode {
                        want.push(b' ');
                    }
                }
                _ => bad = true,
            }
            put(&mut want, &[if text_mode { b"." } else { b". " }]);
        } else {
            let (how, kind) = HOW[split(choose(HOW.len() as u8), HOW.len() as u8) as usize];
            let body = if who == 1 && split(choose(2), 2) == 1 { Body::Other } else { Body::Letter(byte(&LOWER)) };
            put(&mut src, &[how.as_bytes(), b"{", name, b"}{"]);
            match body {
                Body::Letter(l) => src.push(l),
                Body::Other => put(&mut src, &[b"\\f"]),
            }
            src.push(b'}');
            let there = defs[who as usize].is_some();
            match kind {
                0 if there => bad = true,
                1 if !there => bad = true,
                2 if there => continue,
                _ => {}
            }
            defs[who as usize] = Some(body);
        }
    }
    out(&src);
    match conv(text_mode, text(&src)) {
        Ok(o) => {
            out(o.as_bytes());
            if bad {
                fail("a definition of what is there, or a call of what is not, is accepted")
            }
            check_same(o.as_bytes(), &want, "a call does not use the definition in force")
        }
        Err(e) => {
            out(e.as_bytes());
            if !bad {
                fail("macro definitions were refused")
            }
        }
    }
}

/// `\newenvironment{e}[nargs]{before}{after} \begin{e} args body \end{e}` against `before body after`
pub fn h_envexp(nargs: u64, len: u64, mode: u64, form: u64) {
    let (text_mode, n) = (mode == 1, nargs as usize);
    let mut call = b"\\begin{e}".to_vec();
    let mut tail = vec![];
    let args: Vec<Vec<u8>> = (0..n).map(|i| argument(&mut call, !text_mode, i + 1 == n, form & 8 != 0, &mut tail)).collect();
    let (mut d1, mut s1, mut d2, mut s2) = (vec![], vec![], vec![], vec![]);
    if len == 0 {
        // the arguments in the end part
        for (i, a) in args.iter().enumerate() {
            put(&mut d1, &[b"{#", &[b'1' + i as u8], b"}"]);
            put(&mut s1, &[b"{", a, b"}"]);
        }
        body(n, 1, !text_mode, &args, &mut d2, &mut s2);
    } else {
        body(n, len, !text_mode, &args, &mut d1, &mut s1);
        body(0, 1, !text_mode, &args, &mut d2, &mut s2);
    }
    let l = byte(&LOWER);
    let k = if len == 0 { 1 } else { split(choose(5), 5) };
    // blanks at the start
    let lead: &[u8] = [&b""[..], b"", b"\n ", b"", b" "][k as usize];
    let inner: &[u8] = match k {
        0 | 4 => b"",
        1 => b" u&v\\\\ ",
        2 => b"\\begin{matrix}u\\end{matrix}",
        _ => b"{u}\n",
    };
    let mut x = match form & 7 {
        0 => b"\\newenvironment{e}".to_vec(),
        1 => b"\\newenvironment*{e}".to_vec(),
        2 => b"\\newenvironment{e}{w}{w}\\renewenvironment{e}".to_vec(),
        _ => b"\\newenvironment {e} ".to_vec(),
    };
    if n > 0 {
        put(&mut x, &[b"[", &[b'0' + n as u8], b"]"]);
    }
    put(&mut x, &[b"{", &d1, b"}{", &d2, b"}a ", &call, &tail, lead, b"{", &[l], b"}", inner, b"\\end{e}b"]);
    let mut y = b"a ".to_vec();
    put(&mut y, &[&s1, &tail, lead, b"{", &[l], b"}", inner, &s2, b"b"]);
    agree(!text_mode, text(&x), text(&y), "an environment macro is not its expansion");
}

/// n arguments, of which the body uses any two; `form`: 0 braced, 1 single characters, 2 an environment
pub fn h_many(n: u64, form: u64, mode: u64, _d: u64) {
    let args: Vec<u8> = (0..n).map(|i| if i % 2 == 0 { byte(&LOWER) } else { b'a' + i as u8 }).collect();
    let (i, j) = (split(choose(n as u8), n as u8) as usize, split(choose(n as u8), n as u8) as usize);
    let mut x = if form == 2 { b"\\newenvironment{f}".to_vec() } else { b"\\newcommand{\\f}".to_vec() };
    put(&mut x, &[b"[", &[b'0' + n as u8], b"]{#", &[b'1' + i as u8], b".#", &[b'1' + j as u8], b"}"]);
    put(&mut x, &[if form == 2 { b"{!}\\begin{f}" } else { b"\\f" }]);
    for a in &args {
        let (l, r): (&[u8], &[u8]) = if form == 1 { (b" ", b"") } else { (b"{", b"}") };
        put(&mut x, &[l, &[*a], r]);
    }
    put(&mut x, &[b"+", if form == 2 { b"\\end{f}" } else { b"" }]);
    let y = [args[i], b'.', args[j], b'+', b'!'];
    agree_ok(mode == 0, text(&x), text(&y[..if form == 2 { 5 } else { 4 }]), "a macro of many arguments is not its expansion");
}

/// the macro commands and the macro environments: a use of the other kind is none
pub fn h_kinds(kind: u64, known: u64, mode: u64, _d: u64) {
    let text_mode = mode == 1;
    let c = byte(&LOWER);
    let nargs = pick(&[&b""[..], b"[1]"]);
    let name: &[u8] = match (known, kind) {
        (0, _) => &[b'z', byte(&LOWER), b'z'],
        (_, 0) => b"alpha",
        _ => b"matrix",
    };
    let mut x = vec![];
    if kind == 0 {
        put(&mut x, &[b"\\newenvironment{", name, b"}", nargs, b"{", &[c], b"}{w}"]);
    } else {
        put(&mut x, &[b"\\newcommand{\\", name, b"}", nargs, b"{", &[c], b"}"]);
    }
    if split(choose(2), 2) == 1 {
        // what is there already stays
        put(&mut x, &[b"\\providecommand{\\", name, b"}{v}"]);
        if kind == 0 {
            put(&mut x, &[b"\\begin{", name, b"}", if nargs.is_empty() { b"" } else { b"q" }, b"\\end{", name, b"}"]);
            return agree_ok(!text_mode, text(&x), text(&[c, b'w']), "a definition that was there is replaced");
        }
        put(&mut x, &[b"\\", name, b"{u}"]);
        let want = [c, b'{', b'u', b'}'];
        return agree_ok(!text_mode, text(&x), text(&want[..if nargs.is_empty() { 4 } else { 1 }]), "a definition that was there is replaced");
    }
    let mut used = vec![];
    if kind == 0 {
        put(&mut used, &[b"\\", name, b"{u}."]);
    } else {
        put(&mut used, &[b"\\begin{", name, b"}u\\end{", name, b"}."]);
    }
    put(&mut x, &[&used]);
    agree_same(!text_mode, text(&x), text(&used), "a use of a name as the other kind is taken for a macro");
}
/// n steps, each a definition of an environment or a use of it: the definition in force is the last one
pub fn h_redef_env(n: u64, mode: u64, _c: u64, _d: u64) {
    const HOW: &[(&str, bool)] = &[("\\newenvironment", false), ("\\newenvironment*", false), ("\\renewenvironment", true), ("\\renewenvironment*", true)];
    let mut defs: [Option<[u8; 2]>; 2] = [None, None];
    let (mut src, mut want, mut bad) = (B::new(), B::new(), false);
    let text_mode = mode == 1;
    for step in 0..n {
        let who = split(choose(2), 2) as usize;
        let name = ["e", "gh"][who];
        if step > 0 && split(choose(2), 2) == 1 {
            src = src.s("\\begin{").s(name).s("}u\\end{").s(name).s("}");
            match defs[who] {
                Some([a, z]) => {
                    for l in [a, b'u', z] {
                        want = want.b(&[l]).s(if text_mode { "" } else { " " });
                    }
                }
                None => bad = true,
            }
        } else {
            let (how, renew) = HOW[split(choose(4), 4) as usize];
            let l = [byte(&LOWER), byte(&LOWER)];
            src = src.s(how).s("{").s(name).s("}{").b(&l[..1]).s("}").s(pick(&["", " ", "%}\n"])).s("{").b(&l[1..]).s("}");
            bad |= renew != defs[who].is_some();
            defs[who] = Some(l);
        }
    }
    out(&src.0);
    match conv(text_mode, src.str()) {
        Ok(o) => {
            out(o.as_bytes());
            if bad {
                fail("a definition of what is there, or a use of what is not, is accepted")
            }
            check_same(o.as_bytes(), &want.0, "an environment does not use the definition in force")
        }
        Err(e) => {
            out(e.as_bytes());
            if !bad {
                fail("definitions and uses of an environment are refused")
            }
        }
    }
}
/// the same output or the same message
pub fn agree_same(math: bool, a: &str, b: &str, what: &str) {
    out(a.as_bytes());
    out(b.as_bytes());
    match (conv(!math, a), conv(!math, b)) {
        (Ok(x), Ok(y)) | (Err(x), Err(y)) => {
            out(x.as_bytes());
            check_same(x.as_bytes(), y.as_bytes(), what)
        }
        (Ok(x), Err(y)) | (Err(x), Ok(y)) => {
            out(x.as_bytes());
            out(y.as_bytes());
            fail(what)
        }
    }
}

enum X {
    L(u8),
    Arg(usize),
    G(Vec<X>),
    /// 0 without arguments, 1 of one, 2 of two; braced or not
    Call(usize, Vec<Vec<X>>, bool),
    If(bool, Vec<X>, Vec<X>),
    /// an environment of one argument
    Env(Vec<X>, Vec<X>),
}
/// a piece of a body (or of the document) of `nargs` arguments that may call the macros below `rank`
fn tree(depth: u64, nargs: usize, rank: usize, kind: Option<u64>) -> X {
    let leaf = |nargs: usize| match split(choose(3), 3) {
        1 if nargs > 0 => X::Arg(split(choose(nargs as u8), nargs as u8) as usize),
        2 if rank > 0 => X::Call(0, vec![], false),
        _ => X::L(byte(&LOWER)),
    };
    if depth == 0 {
        return leaf(nargs);
    }
    let sub = |kind: u64| if kind == 0 { vec![tree(depth - 1, nargs, rank, None)] } else { vec![tree(0, nargs, rank, None), X::L(b'7')] };
    match kind.unwrap_or_else(|| split(choose(7), 7) as u64) {
        1 => X::G(sub(0)),
        2 if rank > 1 => {
            if split(choose(4), 4) == 0 {
                X::Call(1, vec![vec![X::Call(0, vec![], false)]], false)
            } else {
                X::Call(1, vec![sub(0)], true)
            }
        }
        3 if rank > 2 => X::Call(2, vec![sub(0), sub(1)], true),
        4 => X::If(true, sub(0), sub(1)),
        5 => X::If(false, sub(1), sub(0)),
        6 if rank > 3 => X::Env(sub(1), sub(0)),
        _ => leaf(nargs),
    }
}
fn write_tree(xs: &[X], o: &mut Vec<u8>) {
    for x in xs {
        match x {
            X::L(c) => o.push(*c),
            X::Arg(i) => put(o, &[b"#", &[b'1' + *i as u8]]),
            X::G(v) => {
                o.push(b'{');
                write_tree(v, o);
                o.push(b'}');
            }
            X::Call(m, args, braced) => {
                put(o, &[b"\\", &[b"hgfe"[*m]]]);
                for a in args {
                    if *braced {
                        o.push(b'{');
                        write_tree(a, o);
                        o.push(b'}');
                    } else {
                        put(o, &[b"\\h"]);
                    }
                }
                if args.is_empty() || !braced {
                    o.push(b'.');
                }
            }
            X::If(on, a, b) => {
                put(o, &[if *on { b"\\iftrue+" } else { b"\\iffalse-" }]);
                write_tree(a, o);
                put(o, &[b"\\else!"]);
                write_tree(b, o);
                put(o, &[b"\\fi."]);
            }
            X::Env(a, b) => {
                put(o, &[b"\\begin{e}{"]);
                write_tree(a, o);
                put(o, &[b"}"]);
                write_tree(b, o);
                put(o, &[b"\\end{e}"]);
            }
        }
    }
}
/// the text the pieces stand for; `defs`: the bodies of the macros by rank
fn grow(xs: &[X], args: &[Vec<u8>], defs: &[Vec<X>], o: &mut Vec<u8>) {
    for x in xs {
        match x {
            X::L(c) => o.push(*c),
            X::Arg(i) => put(o, &[&args[*i]]),
            X::G(v) => {
                o.push(b'{');
                grow(v, args, defs, o);
                o.push(b'}');
            }
            X::Call(m, a, braced) => {
                let a: Vec<Vec<u8>> = a
                    .iter()
                    .map(|a| {
                        let mut s = vec![];
                        grow(a, args, defs, &mut s);
                        if !*braced {
                            s.pop();
                        }
                        s
                    })
                    .collect();
                grow(&defs[*m], &a, defs, o);
                if a.is_empty() || !*braced {
                    o.push(b'.');
                }
            }
            X::If(on, a, b) => {
                put(o, &[if *on { b"+" } else { b"!" }]);
                grow(if *on { a } else { b }, args, defs, o);
                o.push(b'.');
            }
            X::Env(a, b) => {
                let mut s = vec![];
                grow(a, args, defs, &mut s);
                grow(&defs[3], &[s], defs, o);
                grow(b, args, defs, o);
                o.push(b',');
            }
        }
    }
}
fn uses(xs: &[X], used: &mut [bool; 4]) {
    for x in xs {
        match x {
            X::L(_) | X::Arg(_) => {}
            X::G(v) => uses(v, used),
            X::Call(m, args, _) => {
                used[*m] = true;
                args.iter().for_each(|a| uses(a, used));
            }
            X::If(_, a, b) | X::Env(a, b) => {
                used[3] |= matches!(x, X::Env(..));
                uses(a, used);
                uses(b, used);
            }
        }
    }
}
/// macros that use each other, with arguments, conditionals and environments among them, against their expansion;
/// `how`: mode and surroundings
pub fn h_calls(body: u64, doc: u64, depth: u64, how: u64) {
    let text_mode = how & 1 == 1;
    let main = vec![tree(depth, 0, 4, Some(doc)), X::L(b'9')];
    // only the bodies that take part vary
    let mut used = [false; 4];
    uses(&main, &mut used);
    let mut part = |rank: usize, nargs: usize, kind: u64| {
        let b = if used[rank] { tree(1, nargs, rank, Some(kind)) } else { X::L(b'q') };
        let b = vec![b];
        if used[rank] {
            uses(&b, &mut used);
        }
        b
    };
    let mut e = part(3, 1, body / 100);
    e.insert(0, X::L(b'*'));
    let mut f = part(2, 2, body / 10 % 10);
    f.push(X::L(b'5'));
    let mut g = part(1, 1, body % 10);
    g.insert(0, X::L(b'('));
    g.push(X::L(b')'));
    let defs = vec![vec![X::L(byte(&LOWER))], g, f, e];
    let mut x = vec![];
    for (i, d) in defs.iter().enumerate() {
        let head: [&[u8]; 4] = [b"\\newcommand{\\h}{", b"\\newcommand{\\g}[1]{", b"\\newcommand{\\f}[2]{", b"\\newenvironment{e}[1]{"];
        put(&mut x, &[head[i]]);
        write_tree(d, &mut x);
        put(&mut x, &[if i == 3 { b"}{,}" } else { b"}" }]);
    }
    let (l, r): (&[u8], &[u8]) = match (how / 2, text_mode) {
        (0, _) => (b"", b""),
        (1, true) => (b"\\textbf{", b"}"),
        (1, false) => (b"\\frac{", b"}{2}"),
        (2, true) => (b"$", b"$"),
        (2, false) => (b"\\text{", b"}"),
        (_, true) => (b"\\begin{itemize}\\item ", b"\\end{itemize}"),
        (_, false) => (b"\\begin{matrix}1&", b"\\end{matrix}"),
    };
    put(&mut x, &[l]);
    write_tree(&main, &mut x);
    put(&mut x, &[r]);
    let mut y = l.to_vec();
    grow(&main, &[], &defs, &mut y);
    put(&mut y, &[r]);
    agree_ok(!text_mode, text(&x), text(&y), "macros in macros are not their expansion");
}
/// a call that is not complete at the end of what it stands in has no expansion; its text must not vanish
pub fn h_open_call(form: u64, mode: u64, _c: u64, _d: u64) {
    let text_mode = mode == 1;
    let n = split(choose(3), 3);
    let mut x = vec![];
    put(&mut x, &[match form {
        0..=5 => [&b"\\newenvironment{e}{(}{)}"[..], b"\\newenvironment{e}[1]{(#1}{)}", b"\\newenvironment{e}[2]{#1#2}{}"][n as usize],
        _ => [&b"\\newcommand{\\f}[1]{#1}"[..], b"\\newcommand{\\f}[2]{#1#2}", b"\\newcommand{\\f}[4]{#4#3#2#1}"][n as usize],
    }]);
    let around = split(choose(4), 4);
    put(&mut x, &[[&b""[..], b"v ", b"{u}", b"\\alpha "][around as usize]]);
    let c = [byte(&LOWER)];
    // its arguments, if it has all of them
    let args: &[u8] = [&b""[..], b"{p}", b"{p}q"][n as usize];
    let inner: &[u8] = pick(&[&b""[..], b" w", b"{w}", b"\\alpha", b"$1$", b"% w\n", b"\n"]);
    match form {
        0 => put(&mut x, &[b"\\begin{e}", args, &c, inner]),
        1 => put(&mut x, &[b"\\begin{e}", args, &c, b"\\begin{e}", inner, b"\\end{e}"]),
        2 => put(&mut x, &[b"\\begin{e}", args, &c, inner, b"\\end{x", &c, b"}"]),
        3 => put(&mut x, &[b"\\begin{e}", args, &c, b"\\begin{matrix}1\\end{matrix}", inner]),
        4 => put(&mut x, &[b"\\begin{e}", args, &c, b"\\begin{matrix}1", inner, b"\\end{e}"]),
        5 => put(&mut x, &[b"{\\begin{e}", args, &c, inner, b"}"]),
        // one argument less than it needs
        6 => put(&mut x, &[b"\\f", [&b""[..], b"{p}", b"pqr"][n as usize], pick(&[&b""[..], b" ", b"\n", b"% w", b"% w\n "])]),
        _ => put(&mut x, &[b"\\f", [&b""[..], b" p", b"{p} {q}{r}"][n as usize], pick(&[&b""[..], b" ", b"%\n"])]),
    }
    out(&x);
    if let Ok(o) = conv(text_mode, text(&x)) {
        out(o.as_bytes());
        fail("a call that is not complete is accepted");
    }
}
/// definitions of what the specification holds already: \renewcommand and \DeclareRobustCommand replace it,
/// \providecommand keeps it; \renew* of what nobody knows is refused
pub fn h_builtin(name: u64, how: u64, mode: u64, _d: u64) {
    let text_mode = mode == 1;
    // a name, a call, what the call converts like when the body is `(c)`, and what is left of it behind a macro without arguments
    let (names, env): ([&[u8]; 3], bool) = match name {
        0 => ([b"alpha", b"u\\alpha v", b"\\alpha "], false),
        1 => ([b"sqrt", b"u\\sqrt{a}v", b"\\sqrt{a}"], false),
        2 => ([b"text", b"u\\text{a}v", b"\\text{a}"], false),
        3 => ([b"zzalpha", b"u\\zzalpha v", b""], false),
        4 => ([b"quote", b"u\\begin{quote}a\\end{quote}v", b"\\begin{quote}a\\end{quote}"], true),
        5 => ([b"matrix", b"u\\begin{matrix}a\\end{matrix}v", b"\\begin{matrix}a\\end{matrix}"], true),
        _ => ([b"zzquote", b"u\\begin{zzquote}a\\end{zzquote}v", b""], true),
    };
    if text_mode && name == 1 || !text_mode && name == 4 {
        return cover(2);
    }
    let known = !names[2].is_empty();
    let one = split(choose(2), 2) == 1;
    let c = [byte(&LOWER)];
    let mut x = vec![];
    let star: &[u8] = pick(&[&b""[..], b"*"]);
    match (how, env) {
        (0, false) => put(&mut x, &[b"\\renewcommand", star, b"{\\", names[0], b"}"]),
        (1, false) => put(&mut x, &[b"\\providecommand", star, b"{\\", names[0], b"}"]),
        (2, false) => put(&mut x, &[b"\\DeclareRobustCommand", star, b"{\\", names[0], b"}"]),
        (_, false) => return cover(2),
        (0, true) => put(&mut x, &[b"\\renewenvironment", star, b"{", names[0], b"}"]),
        (_, true) => return cover(2),
    }
    // with an argument it takes what the call holds (or what is behind it)
    if one {
        put(&mut x, &[b"[1]"]);
    }
    let arg: &[u8] = if one { b"#1" } else { b"" };
    put(&mut x, &[b"{(", &c, arg, b")}"]);
    if env {
        put(&mut x, &[b"{;}"]);
    }
    put(&mut x, &[b"{", names[1], b"}w"]);
    out(&x);
    if how == 0 && !known {
        return check(conv(text_mode, text(&x)).is_err(), "a definition that is not there is redefined");
    }
    if how == 1 && known {
        let y = [b"{", names[1], b"}w"].concat();
        return agree_ok(!text_mode, text(&x), text(&y), "\\providecommand replaces what is there");
    }
    let (taken, rest): (&[u8], &[u8]) = match (name, one) {
        (0 | 3, true) => (b"v", b""),
        (0 | 3, false) => (b"", b" v"),
        (1 | 2, true) => (b"a", b"v"),
        (1 | 2, false) => (b"", b"{a}v"),
        (_, true) => (b"a", b";v"),
        (_, false) => (b"", b"a;v"),
    };
    let y = [b"{u(", &c[..], taken, b")", rest, b"}w"].concat();
    agree_ok(!text_mode, text(&x), text(&y), "a redefinition of what is built in is not its body");
}

/// a macro whose body defines another, whose body mixes the arguments of both (those of the inner one behind `\mitexrecurse`)
pub fn h_defines(kind: u64, mode: u64, inner: u64, len: u64) {
    let text_mode = mode == 1;
    let c = [byte(&LOWER)];
    let outer: &[u8] = pick(&[&b"{b}"[..], b"{\\%}", b" q", b"{{u}v}", b"{}"]);
    let taken: &[u8] = match outer {
        b" q" => b"q",
        x => &x[1..x.len() - 1],
    };
    let given: &[u8] = if inner == 1 { pick(&[&b"{x}"[..], b" y", b"{z\\&}"]) } else { b"" };
    let got: &[u8] = match given {
        b" y" => b"y",
        b"" => b"",
        x => &x[1..x.len() - 1],
    };
    let (mut def, mut sub) = (vec![], vec![]);
    for _ in 0..len {
        match split(choose(if inner == 1 { 6 } else { 3 }), 6) {
            0 => {
                put(&mut def, &[&c]);
                put(&mut sub, &[&c]);
            }
            1 => {
                put(&mut def, &[b"#1"]);
                put(&mut sub, &[taken]);
            }
            2 => {
                put(&mut def, &[b"{#1;}"]);
                put(&mut sub, &[b"{", taken, b";}"]);
            }
            3 => {
                put(&mut def, &[b"\\mitexrecurse{#1}"]);
                put(&mut sub, &[got]);
            }
            4 => {
                put(&mut def, &[b"\\mitexrecurse #1"]);
                put(&mut sub, &[got]);
            }
            _ => {
                put(&mut def, &[b"{\\mitexrecurse{{#1}c}}"]);
                put(&mut sub, &[b"{{", got, b"}c}"]);
            }
        }
    }
    let n: &[u8] = if inner == 1 { b"[1]" } else { b"" };
    let k: &[u8] = b"\\k";
    let (x, y): (Vec<u8>, Vec<u8>) = match kind {
        // in turn: the usual form, the name as an argument, a second definer, a redefinition by every call, an environment that defines
        0 => ([b"{\\newcommand{\\d}[1]{\\newcommand{\\k}", n, b"{(", &def, b")}}\\d", outer, b"(\\k", given, b";)}w"].concat(), [b"{((", &sub[..], b");)}w"].concat()),
        1 => (
            [b"{\\newcommand{\\d}[2]{\\newcommand{#2}", n, b"{(", &def, b")}}\\d", outer, b"{\\k}(\\k", given, b";)\\d", outer, b"\\j\\j", given, b"}w"].concat(),
            [b"{((", &sub[..], b");)(", &sub, b")}w"].concat(),
        ),
        2 => (
            [b"{\\newcommand{\\e}{\\newcommand{\\d}[1]{\\newcommand{\\k}", n, b"{(", &mitexrecurse(&def), b")}}}\\e\\d", outer, b"(\\k", given, b";)}w"].concat(),
            [b"{((", &sub[..], b");)}w"].concat(),
        ),
        3 => (
            [b"{\\newcommand{\\k}{g}\\newcommand{\\d}[1]{\\renewcommand{\\k}", n, b"{(", &def, b")}}\\k\\d{r}\\d", outer, b"(\\k", given, b";)}w"].concat(),
            [b"{g((", &sub[..], b");)}w"].concat(),
        ),
        4 => (
            [b"{\\newenvironment{dd}[1]{(\\newcommand{\\k}", n, b"{(", &def, b")}}{", k, given, b")}\\begin{dd}", outer, b";\\k", given, b";\\end{dd}", k, given, b"}w"].concat(),
            [b"{(;(", &sub[..], b");(", &sub, b"))(", &sub, b")}w"].concat(),
        ),
        _ => (
            [b"{\\newcommand{\\d}[1]{\\newenvironment{kk}", n, b"{(", &def, b"}{)}}\\d", outer, b"(\\begin{kk}", given, b";\\end{kk};)}w"].concat(),
            [b"{((", &sub[..], b";);)}w"].concat(),
        ),
    };
    out(&x);
    agree_ok(!text_mode, text(&x), text(&y), "a macro a macro defines is not its body");
}
/// the same body, one definition further inside
fn mitexrecurse(def: &[u8]) -> Vec<u8> {
    [b"\\mitexrecurse{", def, b"}"].concat()
}
