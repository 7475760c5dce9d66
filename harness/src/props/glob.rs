//! C07: argument patterns.
use super::sym::*;
use mitex_glob::{glob_match, glob_match_prefix, glob_match_with_captures};

#[derive(Clone)]
pub enum G {
    Lit(u8),
    Any,
    Star,
    Alt(Vec<Vec<u8>>),
}
/// does some (`prefix`: some beginning of some) word of the pattern equal the text?
pub fn matches(p: &[G], t: &[u8], prefix: bool) -> bool {
    if prefix && t.is_empty() {
        return true;
    }
    let Some((g, rest)) = p.split_first() else { return t.is_empty() };
    match g {
        G::Lit(c) => !t.is_empty() && t[0] == *c && matches(rest, &t[1..], prefix),
        G::Any => !t.is_empty() && matches(rest, &t[1..], prefix),
        G::Star => (0..=t.len()).any(|i| matches(rest, &t[i..], prefix)),
        G::Alt(l) => l.iter().any(|a| {
            let n = a.len().min(t.len());
            if a[..n] != t[..n] {
                false
            } else if n < a.len() {
                prefix
            } else {
                matches(rest, &t[n..], prefix)
            }
        }),
    }
}
/// can the pattern's words begin with c?
fn first(p: &[G], c: u8) -> bool {
    match p.split_first() {
        None => false,
        Some((G::Lit(d), _)) => *d == c,
        Some((G::Any, _)) => true,
        Some((G::Star, _)) => true,
        Some((G::Alt(l), rest)) => l.iter().any(|a| a.first() == Some(&c) || a.is_empty() && first(rest, c)),
    }
}
/// patterns that need no look-ahead: an optional kind never begins what follows it
fn plain(p: &[G]) -> bool {
    (0..p.len()).all(|i| match &p[i] {
        G::Alt(l) => !l.iter().any(|a| a.is_empty()) || l.iter().all(|a| a.is_empty() || !first(&p[i + 1..], a[0])),
        _ => true,
    })
}
const K: Mask = m(b"tbp");
fn word(max: u8) -> Vec<u8> {
    let n = split(choose(max + 1), max + 1);
    (0..n).map(|_| byte(&K)).collect()
}
/// a pattern of n items against any text of up to k kinds
/// kinds: 0 literals and alternations, 1 also `?`, 2 also `*`
pub fn h_glob(n: u64, k: u64, kinds: u64, alts: u64) {
    let mut p = vec![];
    let mut s = vec![];
    for _ in 0..n {
        let w = 2 + kinds as u8;
        match split(choose(w), w) {
            0 => {
                let c = byte(&K);
                s.push(c);
                p.push(G::Lit(c));
            }
            1 => {
                s.push(b'{');
                let l: Vec<Vec<u8>> = (0..alts).map(|_| word(1)).collect();
                for (i, a) in l.iter().enumerate() {
                    if i > 0 {
                        s.push(b',');
                    }
                    s.extend_from_slice(a);
                }
                s.push(b'}');
                p.push(G::Alt(l));
            }
            2 => {
                s.push(b'?');
                p.push(G::Any);
            }
            _ => {
                s.push(b'*');
                p.push(G::Star);
            }
        }
    }
    assume(plain(&p));
    let t: Vec<u8> = { let n = split(choose(k as u8 + 1), k as u8 + 1); (0..n).map(|_| byte(&K)).collect() };
    out(&s);
    out(&t);
    check(glob_match_prefix(text(&s), text(&t)) == matches(&p, &t, true), "a prefix match is wrong");
}

/// n bytes of a pattern and k of a text, of any value: an answer, and the same from the three entry points
pub fn h_glob_any(n: u64, k: u64, _c: u64, _d: u64) {
    let (s, t) = (B::new().hn(&range(0, 127), n).0, B::new().hn(&range(0, 127), k).0);
    out(&s);
    out(&t);
    let full = glob_match(text(&s), text(&t));
    let pre = glob_match_prefix(text(&s), text(&t));
    match glob_match_with_captures(text(&s), text(&t)) {
        None => check(!full, "captures are missing"),
        Some(l) => {
            check(full, "captures of what does not match");
            check(l.iter().all(|r| r.start <= r.end && r.end <= t.len()), "a capture lies outside of the text");
        }
    }
    cover(if full { 1 } else { 2 });
    if full && !pre && s.first() != Some(&b'!') {
        fail("what matches is not the beginning of what matches")
    }
}
/// alternations in alternations, d deep: `{,b{,b{..}}}p` (form 0), `{p,b{p,b..}}p` (1), `{b{b..,p},p}p` (2), `{b{bp}}p` (3)
pub fn h_glob_nest(d: u64, form: u64, _c: u64, _d: u64) {
    let (mut words, mut s) = (vec![vec![]], vec![]);
    for i in 0..d {
        let mut next: Vec<Vec<u8>> = words.iter().map(|w: &Vec<u8>| [&b"b"[..], w].concat()).collect();
        s = match form {
            0 => [&b"{,b"[..], &s, b"}"].concat(),
            1 => [&b"{p,b"[..], &s, b"}"].concat(),
            2 => [&b"{b"[..], &s, b",p}"].concat(),
            _ => [&b"{b"[..], &s, if i == 0 { &b"p}"[..] } else { b"}" }].concat(),
        };
        match form {
            0 => next.push(vec![]),
            1 | 2 => next.push(b"p".to_vec()),
            _ if i == 0 => next = vec![b"bp".to_vec()],
            _ => {}
        }
        words = next;
    }
    s.push(b't');
    let n = split(choose(d as u8 + 2), d as u8 + 2) as usize;
    let mut t = vec![b'b'; n];
    let k = split(choose(3), 3);
    for _ in 0..k {
        t.push(byte(&K));
    }
    out(&s);
    out(&t);
    let want = words.iter().any(|w| [&w[..], b"t"].concat().starts_with(&t));
    check(glob_match_prefix(text(&s), text(&t)) == want, "a prefix match is wrong");
    let want = words.iter().any(|w| [&w[..], b"t"].concat() == t);
    check(mitex_glob::glob_match(text(&s), text(&t)) == want, "a whole match is wrong");
}
/// long patterns and texts: n kinds, n optional kinds, n of one kind behind another
pub fn h_glob_long(n: u64, form: u64, _c: u64, _d: u64) {
    let n = n as usize;
    let c = byte(&K);
    let m = n - 1 + split(choose(4), 4) as usize;
    let mut t = vec![b't'; m];
    // one kind anywhere is any other
    let at = split(choose(4), 4) as usize * (n - 1) / 3;
    let i = at.min(m.saturating_sub(1));
    let odd = m > 0 && c != b't';
    if m > 0 {
        t[i] = c;
    }
    let (s, want) = match form {
        0 => (vec![b't'; n], !odd && m <= n),
        1 => (vec![b'?'; n], m <= n),
        2 => ([&b"{,b}"[..], &vec![b't'; n]].concat(), if odd && (c != b'b' || i != 0) { false } else { m <= n + odd as usize }),
        3 => (b"t*".to_vec(), i > 0 || !odd),
        4 => ([&vec![b't'; n][..], b"*"].concat(), !odd || i >= n),
        // a group for each kind
        5 => (b"{t,b}".repeat(n), (!odd || c == b'b') && m <= n),
        // one group of long words
        _ => ([&b"{"[..], &vec![b'b'; n], b",", &vec![b't'; n], b"}p"].concat(), [vec![b'b'; n], vec![b't'; n]].iter().any(|w| [&w[..], b"p"].concat().starts_with(&t))),
    };
    out(&s);
    out(&t);
    check(glob_match_prefix(text(&s), text(&t)) == want, "a prefix match is wrong");
}
