//! The syntax tree holds the token stream, and the typed views agree with it.
use super::lexer::{expanded, plain, Tok};
use super::sym::*;
use super::total::ATOMS;
use mitex_lexer::{CommandName as C, IfCommandName as I, Token as T};
use mitex_parser::syntax::*;
use mitex_spec_gen::DEFAULT_SPEC;
use rowan::ast::AstNode;
use rowan::NodeOrToken;
use SyntaxKind::*;

pub fn tree(s: &str) -> SyntaxNode {
    mitex_parser::parse_without_macro(s, DEFAULT_SPEC.clone())
}
pub fn leaves(n: &SyntaxNode, v: &mut Vec<SyntaxToken>) {
    for c in n.children_with_tokens() {
        match c {
            NodeOrToken::Node(n) => leaves(&n, v),
            NodeOrToken::Token(t) => v.push(t),
        }
    }
}
/// the text of the tree is the text of the tokens, except that blanks and comments around the
/// arguments of a command may be left out, and the delimiters of a conditional block are
fn holds(toks: &[Tok], text: &[u8]) {
    let mut j = 0;
    let mut args = false;
    let mut block = 0;
    for &(k, t) in toks {
        let n = t.len();
        let delimiter = match k {
            T::CommandName(C::If(i)) => {
                let opens = block == 0 && matches!(i, I::IfFalse | I::IfTypst);
                block += (block > 0 || opens) as u32;
                opens
            }
            T::CommandName(C::EndIf) if block > 0 => {
                block -= 1;
                block == 0
            }
            _ => false,
        };
        if delimiter {
            continue;
        }
        if j + n <= text.len() && same(&text[j..j + n], t.as_bytes()) {
            j += n;
        } else if !(k.is_trivia() && args) {
            out(t.as_bytes());
            fail("the tree lost or changed a token");
        }
        args |= matches!(k, T::CommandName(_));
    }
    check(j == text.len(), "the tree holds text that is not in the tokens");
}
pub fn check_tree(s: &str) {
    out(s.as_bytes());
    let n = tree(s);
    let mut v = Vec::with_capacity(32);
    leaves(&n, &mut v);
    let mut text = Vec::with_capacity(64);
    for t in &v {
        text.extend_from_slice(t.text().as_bytes());
    }
    out(&text);
    check_same(n.text().to_string().as_bytes(), &text, "the text of the root is not the text of its leaves");
    holds(&plain(s), &text);
    views(&n);
    let n = mitex_parser::parse(s, DEFAULT_SPEC.clone());
    let text = n.text().to_string();
    holds(&expanded(s), text.as_bytes());
    views(&n);
}
/// any n bytes of valid UTF-8
pub fn h_tree(n: u64, _b: u64, _c: u64, _d: u64) {
    let b = bytes(n as usize);
    let Ok(s) = std::str::from_utf8(&b) else { return };
    check_tree(s);
}
/// n symbolic tokens in a context
pub fn h_tree_tok(n: u64, ctx: u64, _c: u64, _d: u64) {
    let (pre, post) = [
        ("", ""),
        ("\\sqrt", ""),
        ("\\frac{a} {b", "c} d"),
        ("\\begin{matrix}", "\\end{matrix}"),
        ("$\\left(", "\\right]$"),
        ("\\[a^", "b\\]"),
        ("\\iffalse a", "\\fi b"),
        ("\\iftypst a\\if", "\\fi b\\fi c"),
        ("\\includegraphics [a] ", "{b}"),
        ("\\begin{array}", "c\\end{array} "),
        ("a_", "\\over b"),
    ][ctx as usize];
    let mut b = B::new().s(pre);
    for _ in 0..n {
        b = b.s(pick(ATOMS));
    }
    check_tree(b.s(post).str());
}

fn first_last(n: &SyntaxNode) -> (Option<SyntaxToken>, Option<SyntaxToken>) {
    let mut v = Vec::with_capacity(32);
    leaves(n, &mut v);
    (v.first().cloned(), v.last().cloned())
}
/// every node of the tree: the typed views against the raw children
fn views(root: &SyntaxNode) {
    check(root.kind() == ScopeRoot, "the root is not a root");
    for n in root.descendants() {
        let k = n.kind();
        let args = n.children().filter(|c| c.kind() == ClauseArgument).count();
        match k {
            ItemCmd => {
                let c = CmdItem::cast(n.clone()).unwrap();
                let name = c.name_tok();
                check(name.is_some(), "a command without a name");
                check(name.unwrap().text().starts_with('\\'), "a command name without its backslash");
                check(c.arguments().count() == args, "the arguments of a command disagree with the tree");
            }
            ItemEnv => {
                let e = EnvItem::cast(n.clone()).unwrap();
                let first = n.first_child();
                let first_args = first.iter().flat_map(|f| f.children()).filter(|c| c.kind() == ClauseArgument).count();
                check(first.is_some_and(|f| f.kind() == ItemBegin), "an environment does not start with its begin clause");
                check(e.begin().is_some(), "an environment without begin clause");
                check(e.name_tok().is_some(), "an environment without name");
                let last = n.last_child().map(|l| l.kind());
                check(e.arguments().count() == first_args, "the arguments of an environment are not those of its begin clause");
                check(e.end().is_some() == (last == Some(ItemEnd)), "the end clause of an environment is misplaced");
                check(n.children().filter(|c| c.kind() == ItemEnd).count() <= 1, "two end clauses");
            }
            ItemCurly | ItemBracket | ItemParen => {
                let (l, r) = match k {
                    ItemCurly => (TokenLBrace, TokenRBrace),
                    ItemBracket => (TokenLBracket, TokenRBracket),
                    _ => (TokenLParen, TokenRParen),
                };
                let first = n.first_child_or_token();
                check(first.is_some_and(|f| f.kind() == l), "a group does not start with its opening mark");
                for c in n.children_with_tokens() {
                    if c.kind() == r {
                        check(c.next_sibling_or_token().is_none(), "a group goes on after its closing mark");
                    }
                }
            }
            ItemFormula => {
                let f = FormulaItem::cast(n.clone()).unwrap();
                check(f.is_display() != f.is_inline(), "a formula is both or neither of inline and display");
                let (a, z) = first_last(&n);
                let (a, z) = (a.unwrap(), z.unwrap());
                if f.is_valid() {
                    let want = match a.text() {
                        "$" => "$",
                        "$$" => "$$",
                        "\\(" => "\\)",
                        "\\[" => "\\]",
                        _ => fail("a formula starts with something else"),
                    };
                    check(z.text() == want, "a valid formula with different delimiters");
                } else if a != z {
                    check(!matches!((a.text(), z.text()), ("$", "$") | ("$$", "$$") | ("\\(", "\\)") | ("\\[", "\\]")) || z.parent().as_ref() != Some(&n), "a formula between its delimiters is not valid");
                }
            }
            ItemLR => {
                let l = LRItem::cast(n.clone()).unwrap();
                let c = l.left();
                check(c.is_some_and(|c| c.is_left()), "a delimited group does not start with \\left");
                let clauses: Vec<SyntaxNode> = n.children().filter(|c| c.kind() == ClauseLR).collect();
                check(clauses.len() <= 2, "a delimited group with more than two clauses");
                check(l.left_sym() == LRClause::cast(clauses[0].clone()).unwrap().sym(), "the opening delimiter is not that of the first clause");
                match clauses.get(1) {
                    Some(r) => check(l.right().is_some_and(|c| !c.is_left() && c.syntax() == r) && l.right_sym() == LRClause::cast(r.clone()).unwrap().sym(), "the closing delimiter is not that of the last clause"),
                    None => check(l.right_sym().is_none() || n.last_child().as_ref() == clauses.first(), "a closing delimiter out of nowhere"),
                }
            }
            ClauseLR => {
                let c = LRClause::cast(n.clone()).unwrap();
                let (a, z) = first_last(&n);
                let (a, z) = (a.unwrap(), z.unwrap());
                check(c.is_left() == (a.text() == "\\left"), "a delimiter clause has the wrong side");
                check(c.sym().is_some() == (a != z), "a delimiter clause has the wrong symbol");
            }
            ItemBegin => {
                let b = BeginItem::cast(n.clone()).unwrap();
                check(b.name().is_some(), "a begin clause without name");
                check(b.arguments().count() == args, "the arguments of an environment disagree with the tree");
            }
            ItemEnd => check(EndItem::cast(n.clone()).unwrap().name().is_some(), "an end clause without name"),
            _ => {}
        }
    }
}
