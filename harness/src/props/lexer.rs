//! The token stream: classification, tiling, transparency of the macro engine.
use super::sym::*;
use super::total::{ATOMS, CTX};
use mitex_lexer::{BraceKind, CommandName as C, IfCommandName as I, Lexer, MacroEngine, Token as T};
use mitex_spec_gen::DEFAULT_SPEC;

pub type Tok<'a> = (T, &'a str);

pub fn plain(s: &str) -> Vec<Tok<'_>> {
    let mut l = Lexer::<()>::new(s, DEFAULT_SPEC.clone());
    let mut v = Vec::with_capacity(64);
    while let Some(t) = l.eat() {
        v.push(t);
    }
    v
}
pub fn expanded(s: &str) -> Vec<Tok<'_>> {
    let mut l = Lexer::new_with_bumper(s, DEFAULT_SPEC.clone(), MacroEngine::new(DEFAULT_SPEC.clone()));
    let mut v = Vec::with_capacity(64);
    while let Some(t) = l.eat() {
        v.push(t);
    }
    v
}
fn name_byte(c: u8) -> bool {
    c.is_ascii_alphabetic() || c == b'@'
}
/// end of a run of name characters, with the `*` of a starred form if `star` accepts it
fn name_end(s: &str, from: usize, star: impl Fn(&str) -> bool) -> usize {
    let b = s.as_bytes();
    let mut i = from;
    while i < b.len() && name_byte(b[i]) {
        i += 1;
    }
    if i < b.len() && b[i] == b'*' && star(&s[..=i]) {
        i += 1;
    }
    i
}
fn skip_blank(s: &str, mut i: usize) -> usize {
    while let Some(c) = s[i..].chars().next() {
        if c == '%' {
            while i < s.len() && s.as_bytes()[i] != b'\n' && s.as_bytes()[i] != b'\r' {
                i += 1;
            }
        } else if c.is_whitespace() {
            i += c.len_utf8();
        } else {
            break;
        }
    }
    i
}
fn word_char(c: char) -> bool {
    !c.is_whitespace() && !"\\%{},$[]()~/_*@'\";&^#".contains(c)
}
/// the token that starts the text: kind, text, length consumed
pub fn reference(s: &str) -> (T, &str, usize) {
    let c = s.chars().next().unwrap();
    let run = |f: &dyn Fn(char) -> bool| s.char_indices().find(|x| !f(x.1)).map_or(s.len(), |x| x.0);
    let brk = |c: char| c == '\n' || c == '\r';
    let (k, n) = match c {
        '\n' | '\r' => (T::LineBreak, run(&brk)),
        '%' => (T::LineComment, run(&|c| !brk(c))),
        '{' => (T::Left(BraceKind::Curly), 1),
        '[' => (T::Left(BraceKind::Bracket), 1),
        '(' => (T::Left(BraceKind::Paren), 1),
        '}' => (T::Right(BraceKind::Curly), 1),
        ']' => (T::Right(BraceKind::Bracket), 1),
        ')' => (T::Right(BraceKind::Paren), 1),
        ',' => (T::Comma, 1),
        '~' => (T::Tilde, 1),
        '/' => (T::Slash, 1),
        '&' => (T::Ampersand, 1),
        '^' => (T::Caret, 1),
        '\'' => (T::Apostrophe, 1),
        '"' => (T::Ditto, 1),
        ';' => (T::Semicolon, 1),
        '#' => (T::Hash, 1),
        '*' => (T::Asterisk, 1),
        '@' => (T::AtSign, 1),
        '_' => (T::Underscore, 1),
        '$' => (T::Dollar, if s[1..].starts_with('$') { 2 } else { 1 }),
        '\\' => return command(s),
        c if c.is_whitespace() => (T::Whitespace, run(&|c| c.is_whitespace() && !brk(c))),
        _ => (T::Word, run(&word_char)),
    };
    (k, &s[..n], n)
}
fn command(s: &str) -> (T, &str, usize) {
    let g = |n: usize| (T::CommandName(C::Generic), &s[..n], n);
    let Some(c) = s[1..].chars().next() else { return g(1) };
    match c {
        '\\' => return (T::NewLine, &s[..2], 2),
        '(' | '[' => return (T::CommandName(C::BeginMath), &s[..2], 2),
        ')' | ']' => return (T::CommandName(C::EndMath), &s[..2], 2),
        c if c.is_whitespace() => return g(1),
        c if !c.is_ascii_alphabetic() && c != '@' => return g(1 + c.len_utf8()),
        _ => {}
    }
    // a starred name only if the specification knows it
    let n = name_end(s, 2, |n| DEFAULT_SPEC.get(&n[1..]).is_some());
    let k = match &s[1..n] {
        "if" => C::If(I::If),
        "iftypst" => C::If(I::IfTypst),
        "iffalse" => C::If(I::IfFalse),
        "iftrue" => C::If(I::IfTrue),
        "ifcase" => C::If(I::IfCase),
        "ifnum" => C::If(I::IfNum),
        "ifcat" => C::If(I::IfCat),
        "ifx" => C::If(I::IfX),
        "ifvoid" => C::If(I::IfVoid),
        "ifhbox" => C::If(I::IfHBox),
        "ifvbox" => C::If(I::IfVBox),
        "ifhmode" => C::If(I::IfHMode),
        "ifmmode" => C::If(I::IfMMode),
        "ifvmode" => C::If(I::IfVMode),
        "ifinner" => C::If(I::IfInner),
        "ifdim" => C::If(I::IfDim),
        "ifeof" => C::If(I::IfEof),
        "@ifstar" => C::If(I::IfStar),
        "else" => C::Else,
        "fi" => C::EndIf,
        "left" => C::Left,
        "right" => C::Right,
        "begin" | "end" => {
            // \begin { name }, blanks and comments allowed around the braces
            let begin = &s[1..n] == "begin";
            let i = skip_blank(s, n);
            if s[i..].starts_with('{') {
                let e = name_end(s, i + 1, |_| true);
                let z = skip_blank(s, e);
                if s[z..].starts_with('}') {
                    let k = if begin { C::BeginEnvironment } else { C::EndEnvironment };
                    return (T::CommandName(k), &s[i + 1..e], z + 1);
                }
            }
            if begin {
                C::ErrorBeginEnvironment
            } else {
                C::ErrorEndEnvironment
            }
        }
        _ => C::Generic,
    };
    (T::CommandName(k), &s[..n], n)
}
pub fn against_reference(s: &str) {
    out(s.as_bytes());
    let got = plain(s);
    let mut at = 0;
    for (k, t) in got {
        out(t.as_bytes());
        if at >= s.len() {
            fail("more tokens than text");
        }
        let (wk, wt, n) = reference(&s[at..]);
        check(k == wk, "a token has the wrong kind");
        check_same(t.as_bytes(), wt.as_bytes(), "a token has the wrong text");
        at += n;
    }
    check(at == s.len(), "the tokens do not cover the text");
}
/// any n bytes of valid UTF-8
pub fn h_lex(n: u64, _b: u64, _c: u64, _d: u64) {
    let b = bytes(n as usize);
    let Ok(s) = std::str::from_utf8(&b) else { return };
    against_reference(s);
}
/// a command name of n symbolic name characters, then a symbolic byte
pub fn h_lex_cmd(n: u64, k: u64, _c: u64, _d: u64) {
    let l = or(LETTER, m(b"@*"));
    let b = B::new().s("\\").hn(&l, n).hn(&ASCII, k);
    against_reference(b.str());
}
/// `\begin`/`\end` with symbolic surroundings
pub fn h_lex_env(a: u64, n: u64, z: u64, end: u64) {
    let sp = m(b" \n\r\t%{}*a");
    let b = B::new().s(["\\begin", "\\end"][end as usize]).hn(&sp, a).s("{").hn(&or(LETTER, m(b"*@ %\n_")), n);
    let b = b.hn(&sp, z).s("}x");
    against_reference(b.str());
}
/// any n bytes of valid UTF-8 in a clause: before the brace, in a comment there, in the name, after it
pub fn h_lex_clause(n: u64, place: u64, end: u64, _d: u64) {
    let b = bytes(n as usize);
    let Ok(s) = std::str::from_utf8(&b) else { return };
    let (l, r) = [("", "{ab*}x"), ("%", "\n{ab}x"), ("{a", "b}x"), ("{ab", "}x"), (" ", "")][place as usize];
    let b = B::new().s(["\\begin", "\\end"][end as usize]).s(l).s(s).s(r);
    against_reference(b.str());
}
/// keywords of conditionals and delimiters, with one symbolic byte appended
pub fn h_lex_kw(_a: u64, _b: u64, _c: u64, _d: u64) {
    let kw = pick(&[
        "if", "iftypst", "iffalse", "iftrue", "ifcase", "ifnum", "ifcat", "ifx", "ifvoid", "ifhbox", "ifvbox", "ifhmode",
        "ifmmode", "ifvmode", "ifinner", "ifdim", "ifeof", "@ifstar", "else", "fi", "left", "right",
    ]);
    let b = B::new().s("\\").s(kw).h(&ASCII).s("b");
    against_reference(b.str());
}
/// n symbolic tokens
pub fn h_lex_tok(n: u64, _b: u64, _c: u64, _d: u64) {
    let mut b = B::new();
    for _ in 0..n {
        b = b.s(pick(ATOMS));
    }
    against_reference(b.str());
}

fn compare(a: &[Tok], b: &[Tok], what: &str) {
    for i in 0..a.len().max(b.len()) {
        if i >= a.len() || i >= b.len() {
            fail(what);
        }
        check(a[i].0 == b[i].0, what);
        check_same(a[i].1.as_bytes(), b[i].1.as_bytes(), what);
    }
}
const DEFINERS: &[&str] = &["newcommand", "newenvironment", "providecommand", "DeclareRobustCommand"];
fn is_neutral(t: &Tok) -> bool {
    match t.0 {
        T::CommandName(C::If(_) | C::Else | C::EndIf) => false,
        T::CommandName(C::Generic) => !DEFINERS.iter().any(|d| t.1.contains(&d[1..])),
        _ => true,
    }
}
/// Without definitions and conditionals the macro engine passes every token through.
/// `pre` tokens come first, so that page boundaries of its buffer fall anywhere.
pub fn h_pass(n: u64, pre: u64, span: u64, _d: u64) {
    let mut b = B(Vec::with_capacity(1024));
    let k = pre + if span > 0 { split(choose(span as u8), span as u8) as u64 } else { 0 };
    for i in 0..k {
        b = b.s(["&", "^", "a "][i as usize % 3]);
    }
    for _ in 0..n {
        b = b.s(pick(ATOMS));
    }
    b = b.s("b&");
    out(b.str().as_bytes());
    let p = plain(b.str());
    if !p.iter().all(is_neutral) {
        return;
    }
    compare(&expanded(b.str()), &p, "the macro engine changed a token stream without macros");
}
/// the same for any n bytes
pub fn h_pass_bytes(n: u64, _b: u64, _c: u64, _d: u64) {
    let b = bytes(n as usize);
    let Ok(s) = std::str::from_utf8(&b) else { return };
    out(s.as_bytes());
    let p = plain(s);
    if !p.iter().all(is_neutral) {
        return;
    }
    compare(&expanded(s), &p, "the macro engine changed a token stream without macros");
}
/// Definitions, conditionals and uses mean the same wherever page boundaries fall:
/// expansion of `prefix + X` is the prefix followed by the expansion of X.
pub fn h_page(which: u64, pre: u64, span: u64, _d: u64) {
    let k = pre + split(choose(span as u8), span as u8) as u64;
    let x = PAGED[which as usize];
    let l = byte(&LOWER);
    let mut tail = B::new();
    for p in x.split('?') {
        if !tail.0.is_empty() {
            tail = tail.b(&[l]);
        }
        tail = tail.s(p);
    }
    let mut b = B(Vec::with_capacity(1024));
    for _ in 0..k {
        b = b.s("&");
    }
    b = b.b(&tail.0);
    out(&tail.0);
    let long = expanded(b.str());
    let short = expanded(tail.str());
    if long.len() < k as usize {
        fail("tokens lost before a page boundary");
    }
    for t in &long[..k as usize] {
        check(t.0 == T::Ampersand, "a token changed before a page boundary");
    }
    compare(&long[k as usize..], &short, "expansion depends on the distance to the start");
}
pub const PAGED: &[&str] = &[
    "\\newcommand{\\f}[2]{#1{#2}#1}\\f{?}{c}\\f a?&b",
    "\\newcommand{\\f}{x?}\\f\\f\\renewcommand{\\f}{&}\\f",
    "\\newenvironment{g}[1]{(#1}{#1)}\\begin{g}{?}a&b\\end{g}&",
    "\\iftrue a&?\\else b\\fi c\\iffalse a\\else ?&\\fi d",
    "\\iftypst a ?&\\fi b\\iftypst c\\else d?\\fi &",
    "\\newcommand{\\f}[1]{#1&}\\f{\\f{?}}{&}\\f?",
    "\\newcommand{\\d}[2]{\\newcommand{#1}[1]{\\mitexrecurse{#1}#2?}}\\d{\\k}{b}\\k a&",
    "\\newenvironment{g}{(}{)}\\begin{g}\\begin{g}?\\end{g}\\begin{q}x\\end{q}\\end{g}\\renewenvironment{g}{[}{?]}\\begin{g}\\end{g}&",
    "\\newcommand{\\f}[1]{\\iftrue #1?\\else b\\fi}\\f{\\f a}\\f %c\n b&",
    "\\iffalse\\newcommand{\\f}{?}\\f\\else\\providecommand{\\f}{a?}\\fi\\f\\f&",
];
pub fn _ctx() -> usize {
    CTX.len()
}
/// without macros, the entry points that know none build the same tree and the same output
pub fn h_pass_conv(n: u64, ctx: u64, any: u64, _d: u64) {
    let (l, r) = super::total::CTX[ctx as usize];
    let mut b = B::new().s(l);
    if any == 1 {
        b = b.hn(&TEXT, n);
    } else {
        for _ in 0..n {
            b = b.s(pick(ATOMS));
        }
    }
    let b = b.s(r);
    out(&b.0);
    passes(&b);
}
/// the tree and the output of a text without macros do not depend on the expander
pub fn passes(b: &B) {
    if !plain(b.str()).iter().all(is_neutral) {
        return;
    }
    compare(&expanded(b.str()), &plain(b.str()), "the macro engine changed a token stream without macros");
    let (x, y) = (mitex_parser::parse(b.str(), DEFAULT_SPEC.clone()), mitex_parser::parse_without_macro(b.str(), DEFAULT_SPEC.clone()));
    let (mut x, mut y) = (x.descendants_with_tokens(), y.descendants_with_tokens());
    loop {
        match (x.next(), y.next()) {
            (None, None) => break,
            (Some(a), Some(b)) => check(a.kind() == b.kind() && a.text_range() == b.text_range(), "the tree depends on the macro engine"),
            _ => fail("the tree depends on the macro engine"),
        }
    }
    match (mitex::convert_math(b.str(), None), mitex::convert_math_no_macro(b.str(), None)) {
        (Ok(x), Ok(y)) | (Err(x), Err(y)) => {
            out(x.as_bytes());
            check_same(x.as_bytes(), y.as_bytes(), "the output depends on the macro engine")
        }
        _ => fail("the output depends on the macro engine"),
    }
}
