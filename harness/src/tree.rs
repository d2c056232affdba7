//! Typst code as a normalised syntax tree, by the Typst project's own parser.
//!
//! Normalisation drops what does not matter for the meaning: the spaces of formulas, whether a
//! character is written plainly or escaped, the separators of arguments that are added up again.
use typst_syntax::{SyntaxKind as K, SyntaxNode};

pub fn greedy_aliases() -> &'static std::collections::HashSet<String> {
    static N: std::sync::OnceLock<std::collections::HashSet<String>> = std::sync::OnceLock::new();
    N.get_or_init(|| crate::latex::names().greedy.iter().map(|n| crate::latex::spec().get_cmd(n).and_then(|c| c.alias.clone()).unwrap_or(n.clone())).collect())
}

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Open(&'static str),
    Close(&'static str),
    /// literal text
    Text(String),
    /// any other leaf
    Leaf(String),
    Sp,
    Par,
}

pub fn tokens(root: &SyntaxNode) -> Result<Vec<T>, String> {
    if let Some(e) = root.errors().first() {
        return Err(format!("{}", e.message));
    }
    let mut o = vec![];
    go(root, &mut o, root.kind() == K::Math);
    Ok(norm(o))
}

fn norm(v: Vec<T>) -> Vec<T> {
    let mut o: Vec<T> = Vec::with_capacity(v.len());
    for t in v {
        match (&t, o.last_mut()) {
            (T::Sp, Some(T::Sp | T::Par)) => {}
            (T::Par, Some(l @ T::Sp)) => *l = T::Par,
            (T::Par, Some(T::Par)) => {}
            (T::Text(b), Some(T::Text(a))) => a.push_str(b),
            (T::Sp | T::Par, None | Some(T::Open(_)) | Some(T::Close("li" | "ei" | "block-eq"))) => {}
            (T::Sp | T::Par, Some(T::Leaf(b))) if b == "[" => {}
            (T::Leaf(b), Some(T::Sp | T::Par)) if b == "]" => {
                o.pop();
                o.push(t);
            }
            (T::Close(_) | T::Open("li" | "ei" | "block-eq"), Some(T::Sp | T::Par)) => {
                o.pop();
                o.push(t);
            }
            _ => o.push(t),
        }
    }
    while matches!(o.last(), Some(T::Sp | T::Par)) {
        o.pop();
    }
    o
}

pub fn show(v: &[T]) -> String {
    let mut s = String::new();
    for t in v {
        match t {
            T::Open(n) => {
                s.push('(');
                s.push_str(n);
                s.push(' ');
            }
            T::Close(_) => s.push(')'),
            T::Text(x) => {
                s.push('‹');
                s.push_str(x);
                s.push('›');
            }
            T::Leaf(x) => {
                s.push_str(x);
                s.push('·');
            }
            T::Sp => s.push('␣'),
            T::Par => s.push('¶'),
        }
    }
    s
}

/// Spaces before a prime are dropped first: the converter separates all items with spaces, the
/// prime included.
fn close_primes(s: &str) -> String {
    let mut t = String::with_capacity(s.len());
    for c in s.chars() {
        if c == '\'' {
            t.truncate(t.trim_end().len());
        }
        t.push(c);
    }
    t
}

pub fn math_tree(s: &str) -> Result<String, String> {
    tokens(&typst_syntax::parse_math(&close_primes(s))).map(|v| show(&v))
}
/// Paragraph breaks count as spaces.
pub fn text_tree_flat(s: &str) -> Result<String, String> {
    tokens(&typst_syntax::parse(&close_primes(s))).map(|v| show(&norm(v.into_iter().map(|t| if t == T::Par { T::Sp } else { t }).collect())))
}
pub fn text_tree(s: &str) -> Result<String, String> {
    tokens(&typst_syntax::parse(&close_primes(s))).map(|v| show(&v))
}

/// The literal text of markup and formulas: text, escapes, quotes; layout collapsed to one space.
pub fn plain(v: &[T]) -> String {
    let mut s = String::new();
    for t in v {
        match t {
            T::Text(x) => s.push_str(x),
            T::Sp | T::Par => s.push(' '),
            _ => {}
        }
    }
    s
}

fn go(n: &SyntaxNode, o: &mut Vec<T>, math: bool) {
    go_in(n, o, math, K::Markup)
}

fn go_in(n: &SyntaxNode, o: &mut Vec<T>, math: bool, parent: K) {
    let k = n.kind();
    if n.children().len() == 0 {
        match k {
            K::LineComment | K::BlockComment => {}
            K::Space if math => {}
            K::Space => o.push(T::Sp),
            K::Parbreak => o.push(T::Par),
            K::Escape => o.push(T::Text(n.text().chars().skip(1).collect())),
            K::Text if !math => {
                // inner spaces are layout
                for (i, w) in n.text().split(' ').enumerate() {
                    if i > 0 {
                        o.push(T::Sp);
                    }
                    if !w.is_empty() {
                        o.push(T::Text(w.to_string()));
                    }
                }
            }
            // dashes are dashes in both languages
            K::Shorthand if !math && n.text().starts_with('-') => o.push(T::Text(n.text().to_string())),
            K::SmartQuote => o.push(T::Text(n.text().to_string())),
            K::MathText | K::Text => o.push(T::Leaf(n.text().to_string())),
            K::ListMarker | K::EnumMarker => {}
            K::Math | K::Markup => {}
            _ => o.push(T::Leaf(n.text().to_string())),
        }
        if math {
            // in formulas each character is an item
            if let Some(T::Text(x)) = o.last() {
                let x = x.clone();
                o.pop();
                o.push(T::Leaf(x));
            }
            if k == K::Comma || k == K::Semicolon {
                let x = n.text();
                o.pop();
                o.push(T::Leaf(format!("{x}{x}")));
            }
        }
        return;
    }
    let inner_math = match k {
        K::Math | K::MathAttach | K::MathDelimited | K::MathFrac | K::MathRoot | K::MathPrimes | K::Equation => true,
        K::Markup | K::ContentBlock | K::ListItem | K::EnumItem | K::Strong | K::Emph | K::Heading => false,
        // code: spaces do not matter
        K::Args | K::Parenthesized | K::Array | K::Dict | K::CodeBlock | K::Named => true,
        _ => math,
    };
    // a greedy command adds up its arguments: the separators do not matter
    if k == K::FuncCall {
        let head = n.children().next().map(|c| c.clone().into_text().to_string()).unwrap_or_default();
        if greedy_aliases().contains(&head) {
            o.push(T::Open("call"));
            o.push(T::Leaf(head));
            for a in n.children().skip(1) {
                for b in a.children() {
                    if b.kind() != K::Comma {
                        go(b, o, true);
                    }
                }
            }
            o.push(T::Close("call"));
            return;
        }
    }
    let tag = match k {
        K::Math | K::Markup => "",
        K::MathAttach => "att",
        K::FuncCall => "call",
        K::MathDelimited => "delim",
        K::Equation => {
            let t = n.clone().into_text();
            // as the body of another equation, the spaces inside the signs do not matter
            if parent != K::Args && (t.starts_with("$ ") || t.starts_with("$\n")) {
                "block-eq"
            } else {
                "eq"
            }
        }
        K::Strong => "strong",
        K::Emph => "emph",
        K::ListItem => "li",
        K::EnumItem => "ei",
        K::Heading => "head",
        K::TermItem => "term",
        K::FieldAccess => "field",
        K::MathPrimes => "primes",
        K::Args => "args",
        K::ContentBlock => "block",
        _ => "n",
    };
    if tag.is_empty() {
        for c in n.children() {
            go(c, o, inner_math);
        }
        return;
    }
    o.push(T::Open(tag));
    for c in n.children() {
        go_in(c, o, inner_math, k);
    }
    o.push(T::Close(tag));
}
