//! C16, C31: argument shapes of a specification given by the caller.
use super::sym::*;
use mitex_spec::{ArgPattern, ArgShape, CmdShape, CommandSpec, CommandSpecItem, ContextFeature, EnvShape, GlobStr};
use rustc_hash::FxHashMap;

pub fn cmd(args: ArgShape, alias: &str) -> CommandSpecItem {
    CommandSpecItem::Cmd(CmdShape { args, alias: Some(alias.to_string()) })
}
pub fn env(args: ArgPattern, f: ContextFeature, alias: &str) -> CommandSpecItem {
    CommandSpecItem::Env(EnvShape { args, ctx_feature: f, alias: Some(alias.to_string()) })
}
pub fn spec(l: Vec<(&str, CommandSpecItem)>) -> CommandSpec {
    let mut h = FxHashMap::default();
    for (k, v) in l {
        h.insert(k.to_string(), v);
    }
    CommandSpec::new(h)
}
fn right(pattern: ArgPattern) -> ArgShape {
    ArgShape::Right { pattern }
}
fn glob(s: &str) -> ArgPattern {
    ArgPattern::Glob { pattern: GlobStr::from(s) }
}
/// (pattern for the crate, its items for the reference: the kinds each may be, and whether it may be absent)
type Items = &'static [(&'static str, bool)];
const GLOBS: &[(&str, Items)] = &[
    ("{,b}t", &[("b", true), ("t", false)]),
    ("{,b}tt", &[("b", true), ("t", false), ("t", false)]),
    ("t{,b}{,p}", &[("t", false), ("b", true), ("p", true)]),
    ("{b,p}t", &[("bp", false), ("t", false)]),
    ("{,b}", &[("b", true)]),
    ("{,b,p}{,t}", &[("bp", true), ("t", true)]),
];
/// may the items spell a word that starts with `w`?
fn spells(it: Items, w: &[u8]) -> bool {
    if w.is_empty() {
        return true;
    }
    match it.split_first() {
        None => false,
        Some(((k, opt), rest)) => k.as_bytes().contains(&w[0]) && spells(rest, &w[1..]) || *opt && spells(rest, w),
    }
}

/// one written unit: source, kind, conversion as an argument and as content
#[derive(Clone)]
struct U {
    src: Vec<u8>,
    kind: u8,
    img: Vec<u8>,
    sep: bool,
}
fn u(src: &[u8], kind: u8, img: &[u8]) -> U {
    U { src: src.to_vec(), kind, img: img.to_vec(), sep: false }
}
/// what stands between and in the units; brackets come apart unless the shape knows them
/// something that leaves nothing in the output
const NOTHING: &[u8] = b"\x01";
/// `nl`: 0 without row ends, else the kind of unit a row end is
fn units(n: u64, whole: bool, ctx: u64, nl: u8) -> Vec<U> {
    let cell = cell(ctx);
    let row: &[u8] = if cell { b"zws ;" } else if ctx == 1 { NOTHING } else { b"\\ " };
    let mut v: Vec<U> = Vec::with_capacity(12);
    for _ in 0..n {
        match split(choose(4), 4) {
            0 => {}
            1 => v.push(U { sep: true, ..u(b" ", b'-', b" ") }),
            2 => v.push(U { sep: true, ..u(b"%c\n", b'-', b"\n") }),
            _ => v.push(U { sep: true, ..u(b"\n", b'-', b"\n") }),
        }
        let k = 9 + (nl > 0) as u8;
        match split(choose(k), k) {
            9 => v.push(u(b"\\\\", nl, row)),
            0 => {
                let c = byte(&or(LOWER, m(b"+")));
                v.push(u(&[b'{', c, b'}'], b't', &[c, b' ']));
            }
            1 => {
                let c = byte(&or(LOWER, DIGIT));
                v.push(u(&[c], b't', &[c, b' ']));
            }
            2 => v.push(u(b"\\u\t", b't', b"u \t")),
            k @ (3 | 4) => {
                let c = byte(&LOWER);
                let (l, r, kd) = if k == 3 { (b'[', b']', b'b') } else { (b'(', b')', b'p') };
                if whole {
                    v.push(u(&[l, c, r], kd, &[b'\\', l, c, b' ', b'\\', r]));
                } else {
                    v.push(u(&[l], b't', &[b'\\', l]));
                    v.push(u(&[c], b't', &[c, b' ']));
                    v.push(u(&[r], b't', &[b'\\', r]));
                }
            }
            5 => v.push(u(b"&", b'&', if cell { b"zws ," } else { b"&" })),
            6 => {
                let c = byte(&m(b";/,\""));
                v.push(u(&[c], b't', &[b'\\', c]));
            }
            7 => v.push(u(b"{}", b't', b"zws ")),
            _ => {
                let (a, b) = (byte(&LOWER), byte(&LOWER));
                v.push(u(&[a], b't', &[a, b' ']));
                v.push(u(&[b], b't', &[b, b' ']));
            }
        }
    }
    v
}
fn cell(ctx: u64) -> bool {
    matches!(ctx, 2 | 4 | 6)
}
fn join(o: &mut Vec<u8>, l: &[U]) {
    for x in l {
        o.extend_from_slice(&x.img);
    }
}
const CTX: &[(&str, &str, &str, &str)] = &[("", "", "", ""), ("{", "}", "", ""), ("\\begin{m}", "\\end{m}", "m(", ")"), ("x{y}", "", "x y ", ""), ("\\begin{m}x&", "\\end{m}", "m(x zws ,", ")"), ("\\left(", "\\right)", "lr(\\( ", "\\) )"), ("\\begin{m}x\\\\", "\\end{m}", "m(x zws ;", ")")];

/// `shape`: 0 none, 1..3 so many terms, 4 up to two terms, 5 zero terms, 6.. globs
/// `nl`: with row ends, which are terms like any command
pub fn h_shape(n: u64, shape: u64, ctx: u64, nl: u64) {
    let al = [byte(&LOWER), byte(&LOWER)];
    let (pat, fixed) = match shape {
        0 => (ArgPattern::None, 0),
        1..=3 => (ArgPattern::FixedLenTerm { len: shape as u8 }, shape),
        4 => (ArgPattern::RangeLenTerm { min: 0, max: 2 }, 2),
        5 => (ArgPattern::FixedLenTerm { len: 0 }, 0),
        k => (glob(GLOBS[k as usize - 6].0), 0),
    };
    let sp = spec(vec![("c", cmd(right(pat), text(&al))), ("u", cmd(right(ArgPattern::None), "u")), ("m", env(ArgPattern::None, ContextFeature::IsMatrix, "m"))]);
    let (l, r, il, ir) = CTX[ctx as usize];
    let us = units(n, shape >= 6, ctx, if nl == 1 { b't' } else { 0 });
    let mut src = B::new().s(l).s("\\c");
    // a letter may not touch the name
    if us.first().is_some_and(|x| x.kind == b't' && x.src.len() == 1 && x.src[0].is_ascii_alphabetic()) {
        return;
    }
    for x in &us {
        src = src.b(&x.src);
    }
    src = src.s(r);
    out(&src.0);
    // which units are arguments: (index) list, and where the rest begins
    let mut args: Vec<usize> = vec![];
    let mut rest = 0;
    let mut kinds: Vec<u8> = vec![];
    for (i, x) in us.iter().enumerate() {
        if x.sep {
            continue;
        }
        if x.kind == b'&' {
            break;
        }
        kinds.push(x.kind);
        let takes = if shape >= 6 { spells(GLOBS[shape as usize - 6].1, &kinds) } else { x.kind == b't' && (args.len() as u64) < fixed };
        if !takes {
            break;
        }
        args.push(i);
        rest = i + 1;
    }
    let mut want = B::new().s(il).b(&al).0;
    if shape == 0 {
        want.push(b' ');
    } else {
        want.push(b'(');
        for (k, i) in args.iter().enumerate() {
            if k > 0 {
                want.push(b',');
            }
            let img = &us[*i].img;
            // the blank after a name is no argument
            let img = if img.ends_with(b"\t") { &img[..img.len() - 1] } else { &img[..] };
            want.extend_from_slice(img);
        }
        want.push(b')');
    }
    // the blank that ends the name of the last argument is content again
    if let Some(i) = args.last() {
        if us[*i].img.ends_with(b"\t") {
            want.push(b'\t');
        }
    }
    join(&mut want, &us[rest..]);
    want.extend_from_slice(ir.as_bytes());
    verdict(&src, sp, &blanks(&want));
}
/// the blanks that start a line are not content
fn blanks(w: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(w.len());
    let mut drop = false;
    for &c in w {
        if drop && (c == b' ' || c == b'\t') {
            continue;
        }
        drop = c == b'\n';
        if c != NOTHING[0] {
            o.push(c);
        }
    }
    o
}
fn verdict(src: &B, sp: CommandSpec, want: &[u8]) {
    match mitex::convert_math(src.str(), Some(sp)) {
        Ok(o) => {
            out(o.as_bytes());
            check_same(o.as_bytes(), want, "the arguments of a command are not the ones its specification says")
        }
        Err(e) => {
            out(e.as_bytes());
            fail("a command with any number of arguments was refused")
        }
    }
}
/// `kind` 0: takes all that follows; 1: takes the item before; 2: takes both sides
/// `nl`: with row ends, which end both sides inside an environment
pub fn h_wide(n: u64, kind: u64, ctx: u64, nl: u64) {
    let al = [byte(&LOWER), byte(&LOWER)];
    let a = match kind {
        0 => right(ArgPattern::Greedy),
        1 => ArgShape::Left1,
        _ => ArgShape::InfixGreedy,
    };
    let sp = spec(vec![("c", cmd(a, text(&al))), ("u", cmd(right(ArgPattern::None), "u")), ("m", env(ArgPattern::None, ContextFeature::IsMatrix, "m"))]);
    let (l, r, il, ir) = CTX[ctx as usize];
    let cell = cell(ctx);
    let nl = if nl == 1 { b'n' } else { 0 };
    let us = units(n, false, ctx, nl);
    let before = if kind == 0 { vec![] } else { units(1, false, ctx, nl) };
    let ends = |x: &U| x.kind == b'&' || x.kind == b'n' && cell;
    let mut src = B::new().s(l);
    for x in &before {
        src = src.b(&x.src);
    }
    src = src.s("\\c");
    if us.first().is_some_and(|x| x.kind == b't' && x.src.len() == 1 && x.src[0].is_ascii_alphabetic()) {
        return;
    }
    for x in &us {
        src = src.b(&x.src);
    }
    src = src.s(r);
    out(&src.0);
    let mut want = B::new().s(il).0;
    let stop = us.iter().position(ends).unwrap_or(us.len());
    if kind == 0 {
        want.extend_from_slice(&al);
        want.push(b'(');
        for (i, x) in us[..stop].iter().enumerate() {
            want.extend_from_slice(&x.img);
            if x.src[0] == b'{' && i + 1 < stop {
                want.push(b',');
            }
        }
        want.push(b')');
        join(&mut want, &us[stop..]);
    } else {
        // where the left argument begins (a word is one item)
        let from = if kind == 1 {
            // the last item that can carry something
            match before.iter().rposition(|x| !x.sep) {
                None => 0,
                Some(i) if before[i].kind == b'&' => i + 1,
                Some(i) if i > 0 && before[i - 1].img[0].is_ascii_lowercase() && before[i].img[0].is_ascii_lowercase() => i - 1,
                Some(i) => i,
            }
        } else {
            before.iter().rposition(ends).map_or(0, |i| i + 1)
        };
        // the outer context holds items of the same list
        if kind == 2 && ctx == 3 {
            let j = before.iter().position(|x| x.kind == b'&');
            want.clear();
            if j.is_some() {
                want.extend_from_slice(il.as_bytes());
                join(&mut want, &before[..from]);
                want.extend_from_slice(&al);
                want.push(b'(');
            } else {
                want.extend_from_slice(&al);
                want.push(b'(');
                want.extend_from_slice(il.as_bytes());
            }
        } else {
            join(&mut want, &before[..from]);
            want.extend_from_slice(&al);
            want.push(b'(');
        }
        join(&mut want, &before[from..]);
        if kind == 2 {
            want.push(b',');
            join(&mut want, &us[..stop]);
            want.push(b')');
            join(&mut want, &us[stop..]);
        } else {
            want.push(b')');
            join(&mut want, &us);
        }
    }
    want.extend_from_slice(ir.as_bytes());
    verdict(&src, sp, &blanks(&want));
}

/// an environment of any kind that only the caller's specification knows
pub fn h_env(f: u64, mode: u64, nargs: u64, ctx: u64) {
    use ContextFeature::*;
    let al = [byte(&LOWER), byte(&LOWER)];
    let feat = [None, IsMath, IsMatrix, IsCases, IsFigure, IsTable, IsItemize, IsEnumerate][f as usize].clone();
    let (is_math, text_mode) = ((1..=3).contains(&f), mode == 1);
    let (nargs, way) = (nargs % 10, nargs / 10);
    let args = match (nargs, way) {
        (0, _) => ArgPattern::None,
        (_, 0) => ArgPattern::FixedLenTerm { len: nargs as u8 },
        (_, 1) => ArgPattern::RangeLenTerm { min: 0, max: nargs as u8 },
        (_, 2) => ArgPattern::RangeLenTerm { min: nargs as u8, max: nargs as u8 },
        _ => glob(["", "t", "tt", "t{t,b}t"][nargs as usize]),
    };
    let sp = spec(vec![("e", env(args, feat, text(&al))), ("item", cmd(right(ArgPattern::None), "item"))]);
    let (pre, post) = [("", ""), ("x ", " y")][ctx as usize];
    let c = byte(&LOWER);
    let d = byte(&DIGIT);
    let mut src = B::new().s(pre).s("\\begin{e}");
    let mut as_args = B::new();
    for i in 0..nargs {
        let a = if f == 5 { b'l' } else { byte(&LOWER) };
        let (arg, conv) = match if is_math { split(choose(4), 4) } else { 0 } {
            0 => (B::new().b(&[a]), B::new().b(&[a]).s(" ")),
            1 => (B::new(), B::new().s("zws ")),
            2 => (B::new().s(" ").b(&[a]).s("%&}\n{}"), B::new().s(" ").b(&[a]).s(" \nzws ")),
            _ => (B::new().s("{").b(&[a]).s("}_{}"), B::new().b(&[a]).s(" _(zws )")),
        };
        src = src.s("{").b(&arg.0).s("}");
        as_args = as_args.s("arg").b(&[b'0' + i as u8]).s(": ").b(&conv.0).s(",");
    }
    let item = f >= 6;
    if item {
        src = src.s("\\item ");
    }
    src = src.b(&[c]).s("&").b(&[d]).s("\\\\").b(&[d]).s("\\end{e}").s(post);
    out(&src.0);
    let ms = !text_mode || is_math;
    let sp2 = if ms { " " } else { "" };
    let (amp, nl) = match f {
        2 => ("zws ,", "zws ;"),
        3 => ("&", ","),
        5 => ("], ", "],\n"),
        _ => ("&", "\\ "),
    };
    let cell = |x: u8| B::new().s(if f == 5 { "[" } else { "" }).b(&[x]).s(sp2);
    let body = B::new().b(&cell(c).0).s(amp).b(&cell(d).0).s(nl).b(&cell(d).0);
    let w = match f {
        1..=3 => B::new().s(if text_mode { "$ " } else { "" }).b(&al).s("(").b(&as_args.0).b(&body.0).s(")").s(if text_mode { " $" } else { "" }),
        4 => B::new().s("#").b(&al).s("()[").b(&body.0).s("];"),
        5 => B::new().s("#").b(&al).s("(stroke: none,\ncolumns: 1,\nalign: (left, ),\n\n").b(&body.0).s("],\n);"),
        6 => B::new().s("\n- ").s(" ").b(&body.0),
        7 => B::new().s("\n+ ").s(" ").b(&body.0),
        _ => B::new().s("#").b(&al).s("[").b(&body.0).s("];"),
    };
    let o = |s: &str| -> Vec<u8> {
        let mut v = vec![];
        for c in s.bytes() {
            v.push(c);
            if !text_mode && c != b' ' {
                v.push(b' ');
            }
        }
        v
    };
    let want = B::new().b(&o(pre)).b(&w.0).b(&o(post));
    let r = if text_mode { mitex::convert_text(src.str(), Some(sp)) } else { mitex::convert_math(src.str(), Some(sp)) };
    match r {
        Ok(o) => {
            out(o.as_bytes());
            check_same(o.as_bytes(), &want.0, "an environment does not convert as its specification says")
        }
        Err(e) => {
            out(e.as_bytes());
            fail("an environment of the specification was refused")
        }
    }
}
/// a name of the default specification means nothing under another one
pub fn h_only(mode: u64, block: u64, _c: u64, _d: u64) {
    let Some((name, c)) = table().get(one_of(block) as usize) else { return };
    let is_env = matches!(c, CommandSpecItem::Env(_));
    let sp = spec(vec![("u", cmd(right(ArgPattern::None), "u"))]);
    // handled by the lexer, not by the specification, or by the environments they belong to
    if defines(name) || name.starts_with("if") || ["u", "item"].contains(&name.as_str()) || !name.bytes().all(|c| c.is_ascii_alphabetic()) {
        return;
    }
    let src = if is_env { B::new().s("\\begin{").s(name).s("}\\end{").s(name).s("}") } else { B::new().s("\\").s(name).s(" ") };
    out(&src.0);
    let want = B::new().s("error: unknown ").s(if is_env { "environment" } else { "command" }).s(": \\").s(name);
    match if mode == 1 { mitex::convert_text(src.str(), Some(sp)) } else { mitex::convert_math(src.str(), Some(sp)) } {
        Ok(o) => {
            out(o.as_bytes());
            fail("a name the given specification does not hold is accepted")
        }
        // which have a message of their own
        Err(e) if ["label", "includegraphics"].contains(&name.as_str()) => check(e.contains(name.as_str()), "the refusal does not name what is unknown"),
        Err(e) => {
            out(e.as_bytes());
            check_same(e.as_bytes(), &want.0, "the refusal does not name what is unknown")
        }
    }
}
/// what the default specification holds, in the order of the names
pub fn table() -> &'static [(String, CommandSpecItem)] {
    static T: std::sync::OnceLock<Vec<(String, CommandSpecItem)>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut v: Vec<_> = mitex_spec_gen::DEFAULT_SPEC.items().map(|(k, v)| (k.to_string(), v.clone())).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        v
    })
}
/// defines a macro, so leaves nothing behind
fn defines(n: &str) -> bool {
    n.contains("ommand") || n.contains("newenv") || n.contains("Declare")
}
/// any of the 64 entries of a block
fn one_of(block: u64) -> u64 {
    block * 64 + split(choose(64), 64) as u64
}
/// every command of the default specification, with all its arguments
pub fn h_alias(mode: u64, block: u64, _c: u64, _d: u64) {
    let text_mode = mode == 1;
    let Some((name, CommandSpecItem::Cmd(c))) = table().get(one_of(block) as usize) else { return };
    if ["item", "label", "includegraphics", "color", "textcolor", "colorbox", "begin", "end", "left", "right"].contains(&name.as_str()) || name.starts_with("if") || ["else", "fi"].contains(&name.as_str()) {
        return;
    }
    if defines(name) || name.is_empty() {
        return;
    }
    // names of letters, or one character that is no letter
    let mut alias = c.alias.clone().unwrap_or_else(|| name.clone());
    if text_mode && name == "textbf" {
        alias = "#strong".to_string();
    }
    if text_mode && name == "textit" {
        alias = "#emph".to_string();
    }
    let (x, y, z) = (byte(&LOWER), byte(&DIGIT), byte(&LOWER));
    let hash = alias.starts_with('#') || text_mode;
    let brack = |l: &[u8]| {
        let mut v = vec![];
        for c in l {
            v.extend_from_slice(&[b'[', *c, b']']);
        }
        v.push(b';');
        v
    };
    let paren = |l: &[u8]| {
        let mut v = vec![b'('];
        for (i, c) in l.iter().enumerate() {
            if i > 0 {
                v.push(b',');
            }
            v.extend_from_slice(&[*c, b' ']);
        }
        v.push(b')');
        v
    };
    let args = |l: &[u8]| if hash { brack(l) } else { paren(l) };
    let lit = |c: u8| if text_mode { vec![c] } else { vec![c, b' '] };
    let b = B::new().s("\\").s(name);
    let (src, want) = match &c.args {
        ArgShape::Right { pattern: ArgPattern::None } => (b.s("{").b(&[x]).s("}"), B::new().s(&alias).s(" ").b(&lit(x))),
        ArgShape::Right { pattern: ArgPattern::FixedLenTerm { len } } => {
            let all = [x, y, z];
            let l = &all[..*len as usize];
            let mut s = b;
            for a in l {
                s = s.s("{").b(&[*a]).s("}");
            }
            (s.s("{").b(&[z]).s("}"), B::new().s(&alias).b(&args(l)).b(&lit(z)))
        }
        ArgShape::Right { pattern: ArgPattern::Greedy } => (b.s(" ").b(&[x]), B::new().s(&alias).s("( ").b(&lit(x)).s(")")),
        ArgShape::Left1 => (B::new().s("{").b(&[x]).s("}\\").s(name).s(" "), B::new().s(&alias).b(&args(&[x])).s(" ")),
        ArgShape::InfixGreedy => (
            B::new().s("{").b(&[x]).s("}\\").s(name).s("{").b(&[y]).s("}"),
            B::new().s(&alias).b(&args(&[x, y])),
        ),
        ArgShape::Right { pattern: ArgPattern::Glob { pattern } } if &*pattern.0 == "{,b}t" && !hash => {
            (b.s("[").b(&[x]).s("]{").b(&[y]).s("}"), B::new().s(&alias).s("(\\[").b(&[x]).s(" \\],").b(&[y]).s(" )"))
        }
        _ => return,
    };
    out(&src.0);
    match if text_mode { mitex::convert_text(src.str(), Option::None) } else { mitex::convert_math(src.str(), Option::None) } {
        Ok(o) => {
            out(o.as_bytes());
            check_same(o.as_bytes(), &want.0, "a command does not convert to what the specification calls it")
        }
        Err(e) => {
            out(e.as_bytes());
            fail("a command of the specification was refused")
        }
    }
}
