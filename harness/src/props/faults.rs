//! Mistakes are reported (C25): one mistake put into a source that is otherwise converted.
use super::meta;
use crate::cx::*;
use crate::{latex, reflex};
use mitex_lexer::{CommandName as C, Token as T};

/// where the parts of a source stand that are read literally
pub fn literal(s: &str, v: &[reflex::Tok], i: usize) -> bool {
    let at = v.get(i).map(|t| t.start).unwrap_or(s.len());
    // the name of a colour model is read as it is written
    if let Some(j) = s[..at].rfind('[') {
        let c = s[..j].trim_end();
        if !s[j..at].contains(']') && ["\\color", "\\textcolor", "\\colorbox"].iter().any(|n| c.ends_with(n)) {
            return true;
        }
    }
    // within or right behind the command that takes its argument literally
    let mut depth = 0i32;
    for t in v[..i].iter().rev() {
        match t.kind {
            T::Right(_) if &s[t.start..t.end] == "}" => depth += 1,
            T::Left(_) if &s[t.start..t.end] == "{" => depth -= 1,
            T::CommandName(C::Generic) => {
                let n = &s[t.start + 1..t.end];
                if depth <= 0 && matches!(n, "label" | "includegraphics" | "ref" | "eqref" | "cite" | "bibliography") {
                    return true;
                }
            }
            T::CommandName(C::BeginEnvironment) if depth <= 0 => {
                let n = &s[t.text.0..t.text.1];
                if n.starts_with("tabular") || n.starts_with("figure") || n.starts_with("table") {
                    return true;
                }
            }
            _ => {}
        }
    }
    false
}

/// a name that is not in the table, often much like one that is
fn unknown(r: &mut crate::rng::Rng, env: bool) -> String {
    static N: std::sync::OnceLock<[Vec<String>; 2]> = std::sync::OnceLock::new();
    let all = N.get_or_init(|| {
        [false, true].map(|e| {
            let word = |n: &str| n.len() > 2 && n.chars().all(|c| c.is_ascii_alphabetic());
            let mut v: Vec<String> = latex::spec().items().map(|x| x.0).filter(|n| word(n) && !n.starts_with("if") && latex::spec().get_env(n).is_some() == e).map(|n| n.to_string()).collect();
            v.sort();
            v
        })
    });
    if r.chance(1, 4) {
        return r.pick(if env { &["zqenv", "zqmatrix"] } else { &["zqfoo", "zqAlpha", "zqx@y", "zqitem"] as &[&str] }).to_string();
    }
    let n = r.pick(&all[env as usize]).clone();
    let first = n.chars().next().unwrap();
    let other = if first.is_ascii_lowercase() { first.to_ascii_uppercase() } else { first.to_ascii_lowercase() };
    let u = match r.below(6) {
        0 => format!("{other}{}", &n[1..]),
        1 => n[..n.len() - 1].to_string(),
        2 => format!("{n}{}", r.pick(&["s", "x", "Z"])),
        3 if env => format!("{n}*"),
        4 => n.to_uppercase(),
        3 => format!("x{n}"),
        // of the other kind
        _ => r.pick(&all[!env as usize]).clone(),
    };
    let own = ["begin", "end", "newcommand", "renewcommand", "providecommand", "newenvironment", "renewenvironment", "left", "right", "else", "fi"];
    let known = |n: &str| if env { latex::spec().get_env(n).is_some() } else { latex::spec().get_cmd(n).is_some() };
    if known(&u) || own.contains(&u.as_str()) || u.starts_with("if") || u.len() < 3 {
        return if env { "zqenv".into() } else { "zqfoo".into() };
    }
    u
}

pub fn case(cx: &mut Cx) {
    let m = cx.rng.chance(1, 2);
    let s = if m { meta::formula(cx) } else { meta::document(cx) };
    if s.contains("\\if") || s.contains("\\else") || s.contains("\\fi") || super::c01::has_macro(&s) || s.contains("mitexrec") || s.contains("zq") {
        return;
    }
    let spec = latex::spec();
    if !reflex::balanced(&s, spec) {
        return;
    }
    cx.about(false, &s);
    // a script that takes the dollar sign behind it
    let packed: String = s.split_whitespace().collect();
    if ["_$", "^$", "_\\)", "^\\)", "_}", "^}"].iter().any(|x| packed.contains(x)) {
        return;
    }
    let f = |s: &str| if m { math(s) } else { text(s) };
    if f(&s).ok().is_none() {
        return cx.count("rejected already");
    }
    let v = reflex::lex(&s, spec);
    let list = s.contains("{itemize}") || s.contains("{enumerate}");
    for _ in 0..3 {
        let i = cx.rng.below(v.len() + 1);
        let at = v.get(i).map(|t| t.start).unwrap_or(s.len());
        // not within words of signs that belong together
        let before = i.checked_sub(1).map(|j| &v[j]);
        if before.is_some_and(|t| s[t.start..t.end] == *"\\" || t.kind == T::LineComment) {
            continue;
        }
        // a delimiter is any one sign
        let sign = v[..i].iter().rev().find(|t| !matches!(t.kind, T::Whitespace | T::LineBreak | T::LineComment));
        if sign.is_some_and(|t| matches!(t.kind, T::CommandName(C::Left | C::Right))) {
            continue;
        }
        if literal(&s, &v, i) {
            continue;
        }
        let inside_comment = before.is_some_and(|t| t.kind == T::LineComment);
        if inside_comment {
            continue;
        }
        let k = cx.rng.below(8);
        let (what, bad, name): (&str, String, Option<String>) = match k {
            0 | 1 => {
                let n = unknown(&mut cx.rng, false);
                ("unknown command", format!("\\{n} "), Some(n))
            }
            2 => {
                let n = unknown(&mut cx.rng, true);
                let b = *cx.rng.pick(&["", "x", " a ", "{y}", "\\alpha"]);
                ("unknown environment", format!("\\begin{{{n}}}{b}\\end{{{n}}}"), Some(n))
            }
            3 => ("closing brace", "}".into(), None),
            4 => ("end of an environment", format!("\\end{{{}}}", cx.rng.pick(&["matrix", "itemize", "zqenv", "equation"])), None),
            5 => ("right delimiter", format!("\\right{}", cx.rng.pick(&[")", "]", ".", "|"])), None),
            6 => ("end of a formula", cx.rng.pick(&["\\)", "\\]"]).to_string(), None),
            _ if cx.rng.chance(1, 2) && !list => ("item outside of a list", "\\item ".into(), None),
            _ => ("dollar sign", " $ ".into(), None),
        };
        let u = format!("{}{}{}", &s[..at], bad, &s[at..]);
        // the signs around must stay what they are
        let w = reflex::lex(&u, spec);
        if w.iter().filter(|t| t.kind == T::LineComment).count() != v.iter().filter(|t| t.kind == T::LineComment).count() {
            continue;
        }
        // an empty formula that nothing ends is taken
        if what == "dollar sign" {
            let bare = w.iter().enumerate().any(|(i, t)| {
                t.kind == T::Dollar
                    && w.get(i + 1).is_none_or(|t| matches!(t.kind, T::Right(_) | T::Dollar | T::CommandName(C::EndEnvironment | C::Right | C::EndMath)))
            });
            if bare {
                continue;
            }
        }
        cx.about(false, &u);
        let o = f(&u);
        cx.eval();
        match o {
            Out::Err(e) => {
                if let Some(n) = name {
                    if !e.contains(&n) {
                        cx.fail(format!("{what} not named"), format!("math={m} {u:?} => {e:?}"));
                    }
                }
                cx.count(what);
                cx.distinct(&u);
                cx.sample(|| format!("{u} => {e}"));
            }
            o => cx.fail(format!("{what} accepted"), format!("math={m} {u:?} => {o:?}")),
        }
    }
}
