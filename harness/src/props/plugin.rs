//! C34: the entry points of the plugin (crates/mitex-wasm).
use super::specs::{describe, item};
use super::sym::*;
use super::wasm;
use mitex_spec::CommandSpec;

/// UTF-8 as its definition says (RFC 3629, section 4)
fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let (n, lo, hi) = match c {
            0..=0x7f => (0, 0, 0),
            0xc2..=0xdf => (1, 0x80, 0xbf),
            0xe0 => (2, 0xa0, 0xbf),
            0xe1..=0xec | 0xee | 0xef => (2, 0x80, 0xbf),
            0xed => (2, 0x80, 0x9f),
            0xf0 => (3, 0x90, 0xbf),
            0xf1..=0xf3 => (3, 0x80, 0xbf),
            0xf4 => (3, 0x80, 0x8f),
            _ => return false,
        };
        for k in 1..=n {
            let Some(&d) = b.get(i + k) else { return false };
            if k == 1 && (d < lo || d > hi) || k > 1 && !(0x80..=0xbf).contains(&d) {
                return false;
            }
        }
        i += 1 + n;
    }
    true
}
fn entry(mode: u64, b: &[u8], spec: &[u8]) -> Result<Vec<u8>, String> {
    if mode == 1 {
        wasm::convert_text(b, spec)
    } else {
        wasm::convert_math(b, spec)
    }
}
fn library(mode: u64, s: &str, spec: Option<CommandSpec>) -> Result<String, String> {
    if mode == 1 {
        mitex::convert_text(s, spec)
    } else {
        mitex::convert_math(s, spec)
    }
}
pub fn agree(mode: u64, doc: &[u8], spec: &[u8], own: Option<CommandSpec>) {
    out(doc);
    let a = entry(mode, doc, spec);
    if !utf8(doc) {
        match a {
            Ok(_) => fail("the plugin converts bytes that are no text"),
            Err(e) => check(!e.is_empty(), "the plugin refuses without a message"),
        }
        return;
    }
    match (a, library(mode, text(doc), own)) {
        (Ok(a), Ok(b)) => {
            out(&a);
            check_same(&a, b.as_bytes(), "the plugin converts differently from the library")
        }
        (Err(a), Err(b)) => {
            out(a.as_bytes());
            check_same(a.as_bytes(), b.as_bytes(), "the plugin refuses with another message than the library")
        }
        (Ok(_), Err(_)) => fail("the plugin converts what the library refuses"),
        (Err(_), Ok(_)) => fail("the plugin refuses what the library converts"),
    }
}
/// n bytes of any value in a document, with the built-in specification
pub fn h_plugin(n: u64, mode: u64, ctx: u64, _d: u64) {
    let (l, r) = [("", ""), ("a\\alpha ", "b"), ("\\frac{", "}{c}"), ("$x$ \\begin{quote}", "\\end{quote}")][ctx as usize];
    let doc = B::new().s(l).b(&bytes(n as usize)).s(r);
    agree(mode, &doc.0, &[], None)
}
/// a specification compiled by the plugin means what its JSON says, and governs its conversions
pub fn h_plugin_spec(kind: u64, mode: u64, _c: u64, _d: u64) {
    if kind == 99 {
        // nothing in it
        let src = pick(&["{\"commands\":{}}", "{\"commands\" : { } }"]);
        let Ok(spec) = wasm::compile_spec(src.as_bytes()) else { fail("the plugin refuses a specification") };
        let own = CommandSpec::from_bytes(&spec);
        let doc = B::new().s(pick(&["a\\alpha", "\\frac", "$\\sum$", "a_", "\\begin{matrix}\\end{matrix}"])).b(&[byte(&LOWER)]);
        return agree(mode, &doc.0, &spec, Some(own));
    }
    let (j, w) = item(kind);
    let src = B::new().s("{\"commands\":{\"c\":").b(&j).s("}}");
    out(&src.0);
    let Ok(spec) = wasm::compile_spec(&src.0) else { fail("the plugin refuses a specification") };
    let own = CommandSpec::from_bytes(&spec);
    match own.get("c") {
        None => fail("the plugin loses an entry of the specification"),
        Some(i) => {
            let d = describe(i);
            out(&d);
            check_same(&d, &w, "the plugin compiles an entry to something else")
        }
    }
    let x = byte(&LOWER);
    let doc = if j.windows(3).any(|w| w == b"env") { B::new().s("a\\begin{c}{l}").b(&[x]).s("&y\\\\z\\end{c}\\alpha") } else { B::new().s("a\\c[").b(&[x]).s("]{y}{z}b") };
    agree(mode, &doc.0, &spec, Some(own))
}
const JSON: &[(&str, &str)] = &[("{\"commands\":{\"c\":{\"kind\":\"sym\"}", "}"), ("{\"commands\":{\"c\":{\"kind\":\"cmd", "\"}}}"), ("", "{\"commands\":{}}"), ("{\"commands\":{\"", "\":{\"kind\":\"cmd1\"}}}"), ("{\"commands\":{}}", "")];
/// n bytes of any value inside the JSON of a specification: compiled, or refused with a message
pub fn h_plugin_json(n: u64, place: u64, _c: u64, _d: u64) {
    let (l, r) = JSON[place as usize];
    let inner = bytes(n as usize);
    let src = B::new().s(l).b(&inner).s(r);
    out(&src.0);
    match wasm::compile_spec(&src.0) {
        Ok(b) => {
            check(place != 4 || inner.iter().all(|c| matches!(c, b' ' | b'\t' | b'\n' | b'\r')), "the plugin compiles what goes on behind a specification");
            let s = CommandSpec::from_bytes(&b);
            check(s.items().count() <= 1, "the plugin compiles more entries than there are");
            check(utf8(&src.0), "the plugin compiles JSON that is no text");
        }
        Err(e) => {
            out(e.as_bytes());
            check(!e.is_empty(), "the plugin refuses a specification without a message")
        }
    }
}
/// two specifications in turn, then the built-in one: each call is governed by its own bytes
pub fn h_plugin_turns(k1: u64, k2: u64, mode: u64, _d: u64) {
    let spec = |k: u64| {
        let (j, _) = item(k);
        let src = B::new().s("{\"commands\":{\"c\":").b(&j).s("}}");
        match wasm::compile_spec(&src.0) {
            Ok(s) => s,
            Err(_) => fail("the plugin refuses a specification"),
        }
    };
    let (s1, s2) = (spec(k1), spec(k2));
    let x = byte(&LOWER);
    let doc = B::new().s("\\c[").b(&[x]).s("]{y}z\\begin{c}{l}u\\end{c}");
    let plain = B::new().s("\\begin{matrix}").b(&[x]).s("\\end{matrix}\\alpha");
    agree(mode, &doc.0, &s1, Some(CommandSpec::from_bytes(&s1)));
    agree(mode, &doc.0, &s2, Some(CommandSpec::from_bytes(&s2)));
    agree(mode, &plain.0, &[], None);
    agree(mode, &plain.0, &s1, Some(CommandSpec::from_bytes(&s1)));
}
