//! C20: which files `compile` reads and writes.
use super::sym::*;

const NAME: Mask = or(LETTER, m(b"._-"));

/// a file name of two or three characters in one of three places, with an extension
fn file(n: u64) -> (Vec<u8>, Vec<u8>) {
    let dir = pick(&["", "a/", "../b.c/"]);
    let mut stem = vec![byte(&LETTER)];
    for _ in 1..n {
        stem.push(byte(&NAME));
    }
    let ext = pick(&[".tex", ".typ", "", ".latex", ".t"]);
    // without an extension of its own, the stem may hold one
    let last = stem.iter().rposition(|c| *c == b'.').filter(|p| *p > 0);
    let bare = match (ext, last) {
        ("", Some(p)) => stem[..p].to_vec(),
        _ => stem.clone(),
    };
    (B::new().s(dir).b(&stem).s(ext).0, B::new().s(dir).b(&bare).s(".typ").0)
}
/// `-i` or not, `-o` or not, and any number of positional arguments
pub fn h_paths(n: u64, named: u64, pos: u64, _d: u64) {
    let (i, i_typ) = if named & 1 != 0 { file(n) } else { (vec![], vec![]) };
    let (o, _) = if named & 2 != 0 { file(n) } else { (vec![], vec![]) };
    let p: Vec<(Vec<u8>, Vec<u8>)> = (0..pos).map(|_| file(n)).collect();
    let s: Vec<&str> = p.iter().map(|x| text(&x.0)).collect();
    for x in [&i, &o] {
        out(x)
    }
    for x in &p {
        out(&x.0)
    }
    let want = match (named, pos) {
        (0, 1) => Some((&p[0].0, &p[0].1)),
        (0, 2) => Some((&p[0].0, &p[1].0)),
        (1, 0) => Some((&i, &i_typ)),
        (3, 0) => Some((&i, &o)),
        _ => None,
    };
    match (mitex_cli::verif_compile_paths(text(&i), text(&o), &s), want) {
        (Ok((a, b)), Some((x, y))) => {
            out(a.as_bytes());
            out(b.as_bytes());
            check_same(a.as_bytes(), x, "compile does not read the file it was given");
            check_same(b.as_bytes(), y, "compile does not write the file it was given or the input's name with .typ");
        }
        (Ok(_), None) => fail("contradictory or missing file names are accepted"),
        (Err(_), Some(_)) => fail("file names given as documented are refused"),
        (Err(e), None) => std::mem::forget(e),
    }
}
