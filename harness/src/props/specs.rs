//! C14: a specification written as JSON, compiled and loaded again.
use super::sym::*;
use mitex_spec::{ArgPattern, ArgShape, CommandSpec, CommandSpecItem, ContextFeature, JsonCommandSpec};

fn pattern(p: &ArgPattern, o: &mut Vec<u8>) {
    match p {
        ArgPattern::None => o.extend_from_slice(b"none"),
        ArgPattern::FixedLenTerm { len } => {
            o.extend_from_slice(b"fixed ");
            o.push(*len)
        }
        ArgPattern::RangeLenTerm { min, max } => {
            o.extend_from_slice(b"range ");
            o.push(*min);
            o.push(*max)
        }
        ArgPattern::Greedy => o.extend_from_slice(b"greedy"),
        ArgPattern::Glob { pattern } => {
            o.extend_from_slice(b"glob ");
            o.extend_from_slice(pattern.0.as_bytes())
        }
    }
}
fn alias(a: &Option<String>, o: &mut Vec<u8>) {
    match a {
        None => o.extend_from_slice(b" -"),
        Some(a) => {
            o.extend_from_slice(b" =");
            o.extend_from_slice(a.as_bytes())
        }
    }
}
/// everything an item of a specification says
pub fn describe(i: &CommandSpecItem) -> Vec<u8> {
    let mut o = Vec::with_capacity(64);
    match i {
        CommandSpecItem::Cmd(c) => {
            match &c.args {
                ArgShape::Left1 => o.extend_from_slice(b"cmd left"),
                ArgShape::InfixGreedy => o.extend_from_slice(b"cmd infix"),
                ArgShape::Right { pattern: p } => {
                    o.extend_from_slice(b"cmd ");
                    pattern(p, &mut o)
                }
            }
            alias(&c.alias, &mut o)
        }
        CommandSpecItem::Env(e) => {
            o.extend_from_slice(b"env ");
            pattern(&e.args, &mut o);
            o.extend_from_slice(match e.ctx_feature {
                ContextFeature::None => b" none",
                ContextFeature::IsMath => b" math",
                ContextFeature::IsMatrix => b" matrix",
                ContextFeature::IsCases => b" cases",
                ContextFeature::IsFigure => b" figure",
                ContextFeature::IsTable => b" table",
                ContextFeature::IsItemize => b" itemize",
                ContextFeature::IsEnumerate => b" enumerate",
            });
            alias(&e.alias, &mut o)
        }
    }
    o
}
const GLOBS: &[&str] = &["{,b}t", "*", "{,b}{,p}tt", "t{b,p}"];
const FEATURES: &[(&str, &str)] = &[("none", "none"), ("is-math", "math"), ("is-matrix", "matrix"), ("is-cases", "cases"), ("is-figure", "figure"), ("is-table", "table"), ("is-itemize", "itemize"), ("is-enumerate", "enumerate")];

/// an argument pattern as JSON and as a description
fn args() -> (Vec<u8>, Vec<u8>) {
    match split(choose(5), 5) {
        0 => (b"{\"kind\":\"none\"}".to_vec(), b"none".to_vec()),
        1 => {
            let d = byte(&DIGIT);
            (B::new().s("{\"kind\":\"fixed-len\",\"len\":").b(&[d]).s("}").0, vec![b'f', b'i', b'x', b'e', b'd', b' ', d - b'0'])
        }
        2 => {
            let (d, e) = (byte(&DIGIT), byte(&range(b'1', b'9')));
            let (x, y) = (B::new().s("\"min\":").b(&[d]).0, B::new().s("\"max\":1").b(&[e]).0);
            let b = B::new().s("{\"kind\":\"range-len\",");
            let b = if flag() { b.b(&x).s(",").b(&y) } else { b.b(&y).s(", ").b(&x) };
            (b.s("}").0, vec![b'r', b'a', b'n', b'g', b'e', b' ', d - b'0', 10 + e - b'0'])
        }
        3 => (b"{\"kind\": \"greedy\"}".to_vec(), b"greedy".to_vec()),
        _ => {
            let g = pick(GLOBS);
            (B::new().s("{\"pattern\":\"").s(g).s("\",\"kind\":\"glob\"}").0, B::new().s("glob ").s(g).0)
        }
    }
}
/// one item: its JSON and what it must come to mean
pub fn item(kind: u64) -> (Vec<u8>, Vec<u8>) {
    let al = [byte(&or(LETTER, m(b"#"))), byte(&or(or(LETTER, DIGIT), m(b".-(): _")))];
    // an alias may be empty
    let al = if kind >= 12 || split(choose(2), 2) == 0 { al.to_vec() } else { vec![] };
    let short = |k: &str, w: &str| (B::new().s("{\"kind\":\"").s(k).s("\"}").0, B::new().s(w).0);
    let named = |k: &str, w: &str| {
        let b = B::new();
        let b = if flag() { b.s("{\"kind\":\"").s(k).s("\",\"alias\":\"").b(&al).s("\"}") } else { b.s("{\"alias\":\"").b(&al).s("\", \"kind\":\"").s(k).s("\"}") };
        (b.0, B::new().s(w).s(" =").b(&al).0)
    };
    match kind {
        0 => short("sym", "cmd none -"),
        1 => short("cmd0", "cmd fixed \0 -"),
        2 => short("cmd1", "cmd fixed \x01 -"),
        3 => short("cmd2", "cmd fixed \x02 -"),
        4 => short("left1-cmd", "cmd left -"),
        5 => short("matrix-env", "env none matrix -"),
        6 => short("normal-env", "env none none -"),
        7 => named("alias-sym", "cmd none"),
        8 => named("greedy-cmd", "cmd greedy"),
        9 => named("infix-cmd", "cmd infix"),
        10 => {
            let g = pick(GLOBS);
            (B::new().s("{\"kind\":\"glob-cmd\",\"pattern\":\"").s(g).s("\",\"alias\":\"").b(&al).s("\"}").0, B::new().s("cmd glob ").s(g).s(" =").b(&al).0)
        }
        11 => {
            let g = pick(GLOBS);
            let f = pick(FEATURES);
            (
                B::new().s("{\"kind\":\"glob-env\",\"pattern\":\"").s(g).s("\",\"alias\":\"").b(&al).s("\",\"ctx_feature\":{\"kind\":\"").s(f.0).s("\"}}").0,
                B::new().s("env glob ").s(g).s(" ").s(f.1).s(" =").b(&al).0,
            )
        }
        12 => {
            let (a, w) = args();
            let (j, d) = match split(choose(3), 3) {
                0 => (B::new().s("{\"kind\":\"right\",\"pattern\":").b(&a).s("}"), B::new().b(&w)),
                1 => (B::new().s("{\"kind\":\"left1\"}"), B::new().s("left")),
                _ => (B::new().s("{\"kind\":\"infix-greedy\"}"), B::new().s("infix")),
            };
            let (j2, d2) = tail(&al);
            (B::new().s("{\"kind\":\"cmd\",\"args\":").b(&j.0).b(&j2).s("}").0, B::new().s("cmd ").b(&d.0).b(&d2).0)
        }
        _ => {
            let (a, w) = args();
            let f = pick(FEATURES);
            let (j2, d2) = tail(&al);
            (
                B::new().s("{\"kind\":\"env\",\"args\":").b(&a).s(",\"ctx_feature\":{\"kind\":\"").s(f.0).s("\"}").b(&j2).s("}").0,
                B::new().s("env ").b(&w).s(" ").s(f.1).b(&d2).0,
            )
        }
    }
}
fn tail(al: &[u8]) -> (Vec<u8>, Vec<u8>) {
    match split(choose(4), 4) {
        3 => (b",\"alias\":\"\"".to_vec(), b" =".to_vec()),
        0 => (vec![], b" -".to_vec()),
        1 => (b",\"alias\":null".to_vec(), b" -".to_vec()),
        _ => (B::new().s(",\"alias\":\"").b(al).s("\"").0, B::new().s(" =").b(al).0),
    }
}
fn loaded(j: &[u8]) -> CommandSpec {
    match serde_json::from_slice::<JsonCommandSpec>(j) {
        Ok(s) => s.into(),
        Err(_) => fail("a specification in JSON was refused"),
    }
}
fn means(s: &CommandSpec, name: &str, want: &[u8], what: &str) {
    match s.get(name) {
        None => fail("an entry of the specification is lost"),
        Some(i) => {
            let d = describe(i);
            out(&d);
            check_same(&d, want, what)
        }
    }
}
/// one entry of a kind, next to an entry of another one
pub fn h_spec(kind: u64, other: u64, _c: u64, _d: u64) {
    let (j, w) = item(kind);
    let (j2, w2) = item(other);
    let src = B::new().s("{\"commands\":{\"c\":").b(&j).s(", \"d@*\":").b(&j2).s("}}");
    out(&src.0);
    let s = loaded(&src.0);
    means(&s, "c", &w, "an entry in JSON does not mean what it says");
    means(&s, "d@*", &w2, "an entry in JSON does not mean what it says");
    check(s.get("e").is_none() && s.items().count() == 2, "the specification holds more than was written");
    let bytes = s.to_bytes();
    let t = CommandSpec::from_bytes(&bytes);
    means(&t, "c", &w, "an entry changes when the specification is stored and loaded");
    means(&t, "d@*", &w2, "an entry changes when the specification is stored and loaded");
    check(t.get("e").is_none() && t.items().count() == 2, "the stored specification holds more than the original");
}
/// what the JSON form of an entry is written back as means the same
pub fn h_spec_json(kind: u64, _b: u64, _c: u64, _d: u64) {
    let (j, w) = item(kind);
    let src = B::new().s("{\"commands\":{\"c\":").b(&j).s("}}");
    out(&src.0);
    let Ok(s) = serde_json::from_slice::<JsonCommandSpec>(&src.0) else { fail("a specification in JSON was refused") };
    let Ok(b) = serde_json::to_vec(&s) else { fail("a specification cannot be written as JSON") };
    out(&b);
    means(&loaded(&b), "c", &w, "an entry changes when it is written as JSON");
}
/// a specification stored and loaded again governs conversions like the original
pub fn h_spec_use(kind: u64, mode: u64, place: u64, _d: u64) {
    let (j, _) = item(kind);
    let src = B::new().s("{\"commands\":{\"c\":").b(&j).s("}}");
    let s = loaded(&src.0);
    // also from an address that is not aligned
    let mut bytes = vec![0u8; 17];
    bytes.truncate(place as usize);
    bytes.extend_from_slice(&s.to_bytes());
    let t = CommandSpec::from_bytes(&bytes[place as usize..]);
    let is_env = j.windows(3).any(|w| w == b"env");
    let x = byte(&LOWER);
    let doc = if is_env { B::new().s("a\\begin{c}{l}").b(&[x]).s("&y\\\\z\\end{c}b") } else { B::new().s("a\\c[").b(&[x]).s("]{y}{z}b") };
    out(&doc.0);
    let f = |s: CommandSpec| if mode == 1 { mitex::convert_text(doc.str(), Some(s)) } else { mitex::convert_math(doc.str(), Some(s)) };
    let (a, b) = (f(s), f(t));
    let l = |r: &Result<String, String>| match r {
        Ok(o) => B::new().s("ok ").s(o).0,
        Err(e) => B::new().s("err ").s(e).0,
    };
    out(&l(&a));
    check_same(&l(&a), &l(&b), "a stored specification converts differently from the original");
}
