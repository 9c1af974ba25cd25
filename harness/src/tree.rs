//! Trees without trivia, for comparing.
use parser::SyntaxKind::{self, *};
use syntax::syntax_node::{SyntaxElement, SyntaxNode};

use crate::lex;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    N(SyntaxKind, Vec<T>),
    L(SyntaxKind, String),
}

pub fn of_node(node: &SyntaxNode) -> T {
    let children = node.children_with_tokens().filter_map(|it| match it {
        SyntaxElement::Node(it) => Some(of_node(&it)),
        SyntaxElement::Token(it) if lex::is_trivia(it.kind()) => None,
        SyntaxElement::Token(it) => Some(T::L(it.kind(), it.text().to_string())),
    });
    T::N(node.kind(), children.collect())
}

impl T {
    pub fn kind(&self) -> SyntaxKind {
        match self {
            T::N(k, _) | T::L(k, _) => *k,
        }
    }
    pub fn tokens(&self) -> Vec<String> {
        let mut res = Vec::new();
        self.collect(&mut res);
        res
    }
    fn collect(&self, res: &mut Vec<String>) {
        match self {
            T::N(_, c) => c.iter().for_each(|it| it.collect(res)),
            T::L(_, s) => res.push(s.clone()),
        }
    }
    pub fn dump(&self) -> String {
        let mut res = String::new();
        self.dump_to(&mut res);
        res
    }
    fn dump_to(&self, res: &mut String) {
        match self {
            T::N(k, c) => {
                res.push_str(&format!("{:?}(", k));
                for (i, it) in c.iter().enumerate() {
                    if i > 0 {
                        res.push(' ');
                    }
                    it.dump_to(res);
                }
                res.push(')');
            }
            T::L(_, s) => res.push_str(&format!("`{}`", s)),
        }
    }
    /// The first place where two trees differ.
    pub fn diff(&self, other: &T) -> Option<String> {
        match (self, other) {
            _ if self == other => None,
            (T::N(a, x), T::N(b, y)) if a == b && x.len() == y.len() => {
                x.iter().zip(y).find_map(|(a, b)| a.diff(b))
            }
            _ => Some(format!("expected {}\n     got {}", clip(&self.dump()), clip(&other.dump()))),
        }
    }
    pub fn count(&self, kind: SyntaxKind) -> u64 {
        match self {
            T::N(k, c) => (*k == kind) as u64 + c.iter().map(|it| it.count(kind)).sum::<u64>(),
            T::L(k, _) => (*k == kind) as u64,
        }
    }
}

fn clip(s: &str) -> String {
    match s.char_indices().nth(600) {
        Some((i, _)) => format!("{}…", &s[..i]),
        None => s.to_string(),
    }
}

pub fn leaf(kind: SyntaxKind, text: &str) -> T {
    T::L(kind, text.to_string())
}

/// A keyword or punctuation leaf.
pub fn tok(text: &str) -> T {
    let kind = match text {
        "&mut" => AMP_MUT,
        _ => lex::lex(text)[0].0,
    };
    leaf(kind, text)
}
