//! An independent lexer for the token rules of the language: hand-written, one character at a time,
//! directly over the whole input (no pages, no peeking, no regexes).
use mitex_lexer::{BraceKind, CommandName as C, IfCommandName as I, Token as T};
use mitex_spec::CommandSpec;

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub kind: T,
    /// extent in the input
    pub start: usize,
    pub end: usize,
    /// the text the token carries (the name, for environment clauses)
    pub text: (usize, usize),
}

fn special(c: char) -> bool {
    c.is_whitespace() || "\\%{},$[]()~/_*@'\";&^#".contains(c)
}

fn name_end(s: &[u8], mut i: usize, star_ok: impl Fn(usize) -> bool) -> usize {
    while i < s.len() {
        let b = s[i];
        if b.is_ascii_alphabetic() || b == b'@' {
            i += 1;
        } else {
            if b == b'*' && star_ok(i + 1) {
                i += 1;
            }
            break;
        }
    }
    i
}

/// after `\begin` or `\end`: the extent of the name and the end of the clause
fn clause(s: &str, at: usize) -> Option<(usize, usize, usize)> {
    let skip = |mut i: usize| {
        loop {
            let c = s[i..].chars().next()?;
            if c.is_whitespace() {
                i += c.len_utf8();
            } else if c == '%' {
                match s[i..].find(['\n', '\r']) {
                    Some(j) => i += j + 1,
                    None => return None,
                }
            } else {
                return Some(i);
            }
        }
    };
    let i = skip(at)?;
    if s.as_bytes()[i] != b'{' {
        return None;
    }
    let a = i + 1;
    let b = name_end(s.as_bytes(), a, |_| true);
    let e = skip(b)?;
    if s.as_bytes()[e] != b'}' {
        return None;
    }
    Some((a, b, e + 1))
}

fn command(s: &str, at: usize, spec: &CommandSpec) -> (C, usize, Option<(usize, usize)>) {
    let Some(c) = s[at + 1..].chars().next() else { return (C::Generic, at + 1, None) };
    if c.is_whitespace() {
        return (C::Generic, at + 1, None);
    }
    let next = at + 1 + c.len_utf8();
    match c {
        '(' | '[' => return (C::BeginMath, next, None),
        ')' | ']' => return (C::EndMath, next, None),
        '@' => {}
        _ if c.is_ascii_alphabetic() => {}
        _ => return (C::Generic, next, None),
    }
    let e = name_end(s.as_bytes(), next, |e| spec.get(&s[at + 1..e]).is_some());
    let k = match &s[at + 1..e] {
        "if" => C::If(I::If),
        "iftypst" => C::If(I::IfTypst),
        "iffalse" => C::If(I::IfFalse),
        "iftrue" => C::If(I::IfTrue),
        "ifcase" => C::If(I::IfCase),
        "ifnum" => C::If(I::IfNum),
        "ifcat" => C::If(I::IfCat),
        "ifx" => C::If(I::IfX),
        "ifvoid" => C::If(I::IfVoid),
        "ifhbox" => C::If(I::IfHBox),
        "ifvbox" => C::If(I::IfVBox),
        "ifhmode" => C::If(I::IfHMode),
        "ifmmode" => C::If(I::IfMMode),
        "ifvmode" => C::If(I::IfVMode),
        "ifinner" => C::If(I::IfInner),
        "ifdim" => C::If(I::IfDim),
        "ifeof" => C::If(I::IfEof),
        "@ifstar" => C::If(I::IfStar),
        "else" => C::Else,
        "fi" => C::EndIf,
        "left" => C::Left,
        "right" => C::Right,
        n @ ("begin" | "end") => {
            let b = n == "begin";
            return match clause(s, e) {
                Some((x, y, z)) => (if b { C::BeginEnvironment } else { C::EndEnvironment }, z, Some((x, y))),
                None => (if b { C::ErrorBeginEnvironment } else { C::ErrorEndEnvironment }, e, None),
            };
        }
        _ => C::Generic,
    };
    (k, e, None)
}

pub fn lex(s: &str, spec: &CommandSpec) -> Vec<Tok> {
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() {
        let c = s[i..].chars().next().unwrap();
        let run = |f: &dyn Fn(char) -> bool| s[i..].find(|c| !f(c)).map_or(s.len(), |j| i + j);
        let one = |k: T| (k, i + 1);
        let mut text = None;
        let (kind, end) = match c {
            '\n' | '\r' => (T::LineBreak, run(&|c| c == '\n' || c == '\r')),
            '%' => (T::LineComment, run(&|c| c != '\n' && c != '\r')),
            _ if c.is_whitespace() => (T::Whitespace, run(&|c| c.is_whitespace() && c != '\n' && c != '\r')),
            '{' => one(T::Left(BraceKind::Curly)),
            '[' => one(T::Left(BraceKind::Bracket)),
            '(' => one(T::Left(BraceKind::Paren)),
            '}' => one(T::Right(BraceKind::Curly)),
            ']' => one(T::Right(BraceKind::Bracket)),
            ')' => one(T::Right(BraceKind::Paren)),
            ',' => one(T::Comma),
            '~' => one(T::Tilde),
            '/' => one(T::Slash),
            '&' => one(T::Ampersand),
            '^' => one(T::Caret),
            '\'' => one(T::Apostrophe),
            '"' => one(T::Ditto),
            ';' => one(T::Semicolon),
            '#' => one(T::Hash),
            '*' => one(T::Asterisk),
            '@' => one(T::AtSign),
            '_' => one(T::Underscore),
            '$' => (T::Dollar, if s[i + 1..].starts_with('$') { i + 2 } else { i + 1 }),
            '\\' if s[i + 1..].starts_with('\\') => (T::NewLine, i + 2),
            '\\' => {
                let (k, e, t) = command(s, i, spec);
                text = t;
                (T::CommandName(k), e)
            }
            _ => (T::Word, run(&|c| !special(c))),
        };
        v.push(Tok { kind, start: i, end, text: text.unwrap_or((i, end)) });
        i = end;
    }
    v
}

/// Whether every delimiter, environment, pair and formula that opens also closes, in order, in the
/// view of a reader: the text can stand inside another construct without reaching out of it.
pub fn balanced(s: &str, spec: &CommandSpec) -> bool {
    let mut st: Vec<String> = vec![];
    let close = |st: &mut Vec<String>, k: &str| st.pop().as_deref() == Some(k);
    let toks = lex(s, spec);
    let mut skip_delim = false;
    for t in &toks {
        if skip_delim && !t.kind.is_trivia() {
            skip_delim = false;
            if !matches!(t.kind, T::Word | T::CommandName(C::Generic) | T::Slash | T::Left(BraceKind::Bracket | BraceKind::Paren) | T::Right(BraceKind::Bracket | BraceKind::Paren)) {
                return false;
            }
            if matches!(t.kind, T::Left(_) | T::Right(_)) {
                continue;
            }
        }
        let ok = match t.kind {
            T::Left(BraceKind::Curly) => {
                st.push("{".into());
                true
            }
            T::Right(BraceKind::Curly) => close(&mut st, "{"),
            T::CommandName(C::BeginEnvironment) => {
                st.push(format!("e{}", &s[t.text.0..t.text.1]));
                true
            }
            T::CommandName(C::EndEnvironment) => close(&mut st, &format!("e{}", &s[t.text.0..t.text.1])),
            T::CommandName(C::Left) => {
                st.push("l".into());
                skip_delim = true;
                true
            }
            T::CommandName(C::Right) => {
                skip_delim = true;
                close(&mut st, "l")
            }
            T::CommandName(C::ErrorBeginEnvironment | C::ErrorEndEnvironment | C::If(_) | C::Else | C::EndIf) | T::Error | T::MacroArg(_) => false,
            T::CommandName(C::BeginMath) => {
                st.push(s[t.start..t.end].to_string());
                true
            }
            T::CommandName(C::EndMath) => close(&mut st, if s[t.start..t.end].ends_with(')') { "\\(" } else { "\\[" }),
            T::Dollar => {
                let x = &s[t.start..t.end];
                if st.last().map(|y| y == x).unwrap_or(false) {
                    st.pop();
                } else {
                    st.push(x.to_string());
                }
                true
            }
            _ => true,
        };
        if !ok {
            return false;
        }
    }
    st.is_empty() && !skip_delim
}
