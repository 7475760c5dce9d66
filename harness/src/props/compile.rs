//! C35: what `mitex compile` writes.
use super::sym::*;
use mitex_spec::CommandSpecItem as I;
use std::collections::BTreeSet;

/// a name in a directory of its own
struct Dir(String);
impl Dir {
    #[cfg(not(feature = "native"))]
    fn new() -> Dir {
        Dir("d/".into())
    }
    #[cfg(feature = "native")]
    fn new() -> Dir {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let d = format!("{}/mitex-verif-{}-{}/", std::env::temp_dir().display(), std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed));
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
    fn f(&self, n: &str) -> String {
        format!("{}{}", self.0, n)
    }
}
#[cfg(feature = "native")]
impl Drop for Dir {
    fn drop(&mut self) {
        for n in ["a.tex", "a.typ"] {
            let _ = std::fs::remove_file(self.f(n));
        }
        let _ = std::fs::remove_dir(&self.0);
    }
}

/// every handler the built-in specification names, but the words Typst keeps to itself
fn handlers() -> BTreeSet<&'static str> {
    mitex_spec_gen::DEFAULT_SPEC
        .items()
        .filter_map(|(_, i)| match i {
            I::Cmd(c) => c.alias.as_deref(),
            I::Env(e) => e.alias.as_deref(),
        })
        .filter(|a| !a.is_empty() && a.bytes().all(|c| c.is_ascii_alphanumeric()) && !matches!(*a, "and" | "or" | "in" | "not"))
        .collect()
}
const INSIDE: &[(&str, &str)] = &[("", ""), ("a $x$ ", "\n"), ("\\newcommand{\\f}[1]{[#1]}\\f{", "}"), ("\\begin{itemize}\\item ", "\\end{itemize}"), ("\u{feff}a", "\r\n\r\n")];

/// the file written for n bytes of any value in a document (form 0: any text, 1: any bytes), with what was in it before
pub fn h_compile(n: u64, ctx: u64, form: u64, syntax: u64) {
    let (l, r) = INSIDE[ctx as usize];
    let mid = if form == 0 { B::new().hn(&TEXT, n).0 } else { bytes(n as usize) };
    let src = B::new().s(l).b(&mid).s(r);
    out(&src.0);
    let dir = Dir::new();
    let (i, o) = (dir.f("a.tex"), dir.f("a.typ"));
    std::fs::write(&i, &src.0).unwrap();
    std::fs::write(&o, b"before").unwrap();
    let res = super::climain::verif_compile(&i, &o, syntax != 0);
    let now = std::fs::read(&o).unwrap();
    let kept = std::fs::read(&i).unwrap();
    drop(dir);
    check_same(&kept, &src.0, "compile changes its input");
    let want = match std::str::from_utf8(&src.0) {
        Err(_) => Err("not text".to_string()),
        Ok(s) if syntax != 0 => Ok(format!("{:#?}", mitex_parser::parse(s, mitex_spec_gen::DEFAULT_SPEC.clone()))),
        Ok(s) => mitex::convert_text(s, None),
    };
    match (res, want) {
        (Ok(()), Ok(w)) => {
            out(w.as_bytes());
            let k = match now.len().checked_sub(w.len()) {
                Some(k) => k,
                None => fail("compile writes less than the conversion"),
            };
            check_same(&now[k..], w.as_bytes(), "compile does not write the conversion");
            prelude(&now[..k]);
        }
        (Err(e), Err(w)) => {
            check_same(&now, b"before", "compile writes although it fails");
            let e = e.to_string();
            let e = e.as_bytes();
            if std::str::from_utf8(&src.0).is_ok() {
                let k = match e.len().checked_sub(w.len()) {
                    Some(k) => k,
                    None => fail("compile does not say why the conversion fails"),
                };
                check_same(&e[k..], w.as_bytes(), "compile does not say why the conversion fails");
            }
        }
        (Ok(_), Err(_)) => fail("compile writes what cannot be converted"),
        (Err(_), Ok(_)) => fail("compile refuses what can be converted"),
    }
}
/// the import of the package and one definition for each handler, then a blank line
fn prelude(b: &[u8]) {
    let b = match std::str::from_utf8(b) {
        Ok(b) => b,
        Err(_) => fail("the prelude is no text"),
    };
    let mut imported = false;
    let mut got: Vec<&str> = vec![];
    for l in b.lines() {
        if l.is_empty() {
            continue;
        }
        if l.starts_with("#import \"@preview/mitex:") && l.ends_with("\": *") && !imported {
            imported = true;
            continue;
        }
        let name = l.strip_prefix("#let ").and_then(|l| l.split_once(" = "));
        match name {
            Some((name, v)) if imported && v.strip_prefix("mitex-scope.at(\"").and_then(|v| v.strip_prefix(name)) == Some("\", default: none);") => got.push(name),
            _ => fail("the prelude holds a line that is no definition of a handler"),
        }
    }
    check(imported && b.ends_with('\n'), "the prelude does not import the package");
    got.sort();
    let want: Vec<&str> = handlers().into_iter().collect();
    check(got == want, "the prelude does not define each handler once");
}
/// a file that is not there
pub fn h_compile_none(_a: u64, _b: u64, _c: u64, syntax: u64) {
    let dir = Dir::new();
    let (i, o) = (dir.f("a.tex"), dir.f("a.typ"));
    std::fs::write(&o, b"before").unwrap();
    let res = super::climain::verif_compile(&i, &o, syntax != 0);
    let now = std::fs::read(&o).unwrap();
    drop(dir);
    check_same(&now, b"before", "compile writes although its input is missing");
    match res {
        Ok(()) => fail("compile accepts a missing input"),
        Err(e) => check(!e.to_string().is_empty(), "compile does not say that its input is missing"),
    }
}
