//! What is written shows up (C28): marks put anywhere into a source come out once, in order.
use super::{faults, meta};
use crate::cx::*;
use crate::{latex, reflex};
use mitex_lexer::{CommandName as C, Token as T};
use typst_syntax::{SyntaxKind as K, SyntaxNode};

const MARKS: [char; 3] = ['龘', '靐', '齉'];

/// the marks that are visible text of the code, in order
fn visible(n: &SyntaxNode, o: &mut Vec<char>) {
    match n.kind() {
        K::LineComment | K::BlockComment | K::Label | K::Raw | K::Link => {}
        _ if n.children().len() == 0 => {
            if matches!(n.kind(), K::Text | K::MathText | K::MathIdent | K::Str | K::Escape) {
                o.extend(n.text().chars().filter(|c| MARKS.contains(c)));
            }
        }
        _ => n.children().for_each(|c| visible(c, o)),
    }
}

/// where the parts of a source stand that are read literally: paths, labels, colours, columns,
/// placements; by place between tokens
fn literal(s: &str, v: &[reflex::Tok]) -> Option<Vec<bool>> {
    let mut o = vec![false; v.len() + 1];
    let x = |i: usize| v.get(i).map(|t| &s[t.start..t.end]).unwrap_or("");
    let layout = |mut i: usize| {
        while v.get(i).is_some_and(|t| t.kind.is_trivia()) {
            i += 1;
        }
        i
    };
    // the end of the group or bracket that begins at i (a script sign takes what is behind it)
    let close = |i: usize| {
        let (a, b) = if x(i) == "{" { ("{", "}") } else { ("[", "]") };
        let mut d = 0;
        for j in i..v.len() {
            d += (x(j) == a) as i32 - (x(j) == b) as i32;
            if matches!(x(j), "_" | "^") && a == "[" {
                return None;
            }
            if d <= 0 {
                return Some(j + 1);
            }
        }
        None
    };
    for (i, t) in v.iter().enumerate() {
        let name = match t.kind {
            T::CommandName(C::Generic) => &s[t.start + 1..t.end],
            T::CommandName(C::BeginEnvironment) => s[t.text.0..t.text.1].trim(),
            _ => continue,
        };
        let group = match (t.kind, name) {
            (T::CommandName(C::Generic), "label") => true,
            (T::CommandName(C::Generic), "includegraphics" | "color" | "textcolor" | "colorbox") => true,
            (T::CommandName(C::BeginEnvironment), "tabular" | "tabular*") => true,
            (T::CommandName(C::BeginEnvironment), "figure" | "figure*" | "table" | "table*") => false,
            _ => continue,
        };
        let mut j = i + 1;
        let k = layout(j);
        if x(k) == "[" {
            j = close(k)?;
            // a placement is some letters
            if !group && !s[v[k].end..v[j - 1].start].chars().all(|c| c.is_ascii_alphabetic() || c == '!') {
                return None;
            }
        }
        let k = layout(j);
        if group {
            // (not without braces)
            if x(k) != "{" {
                return None;
            }
            j = close(k)?;
        }
        // (what stands right behind the name would be its argument)
        o[i + 1..j.max(i + 2).min(v.len() + 1)].iter_mut().for_each(|b| *b = true);
    }
    Some(o)
}

/// the most captions within one float
fn captions(s: &str) -> usize {
    s.split("\\end{figure").flat_map(|x| x.split("\\end{table")).map(|x| x.matches("\\caption").count()).max().unwrap_or(0)
}

pub fn case(cx: &mut Cx) {
    if cx.k == 0 {
        // known: a float has one caption
        cx.eval();
        let o = text("\\begin{figure}\\caption{first}\\caption{second}\\end{figure}");
        if !o.ok().is_none_or(|o| o.contains("first") && o.contains("second")) {
            cx.fail("first of two captions lost", format!("{o:?}"));
        }
    }
    let m = cx.rng.chance(1, 2);
    let s = if m { meta::formula(cx) } else { meta::document(cx) };
    if s.contains("\\if") || s.contains("\\else") || s.contains("\\fi") || super::c01::has_macro(&s) || s.contains("mitexrec") {
        return;
    }
    let spec = latex::spec();
    let f = |s: &str| if m { math(s) } else { text(s) };
    cx.about(false, &s);
    if f(&s).ok().is_none() {
        return cx.count("rejected already");
    }
    let v = reflex::lex(&s, spec);
    let whole = reflex::balanced(&s, spec);
    if !whole && (s.contains("{figure") || s.contains("{table") || s.contains('[')) {
        return;
    }
    // documents inside formulas
    if (m || !whole) && ["quote", "abstract", "figure", "table", "tabular", "itemize", "enumerate"].iter().any(|n| s.contains(n)) {
        return;
    }
    let mut inside = false;
    for t in &v {
        match t.kind {
            T::Dollar => inside = !inside,
            T::CommandName(C::BeginMath) => inside = true,
            T::CommandName(C::EndMath) => inside = false,
            T::CommandName(C::BeginEnvironment) if inside && ["quote", "abstract", "figure", "table", "tabular", "itemize", "enumerate"].iter().any(|n| s[t.text.0..t.text.1].contains(n)) => return,
            _ => {}
        }
    }
    if captions(&s) > 1 {
        return;
    }
    let floats = s.contains("\\caption");
    let Some(fixed) = literal(&s, &v) else { return };
    for _ in 0..4 {
        // places, in order
        let n = 1 + cx.rng.below(3);
        let mut at: Vec<usize> = (0..n).map(|_| cx.rng.below(v.len() + 1)).collect();
        at.sort();
        at.dedup();
        if at.iter().any(|&i| {
            let before = i.checked_sub(1).map(|j| &v[j]);
            before.is_some_and(|t| s[t.start..t.end] == *"\\" || t.kind == T::LineComment || matches!(t.kind, T::CommandName(C::Left | C::Right))) || (if whole { fixed[i] } else { faults::literal(&s, &v, i) })
        }) {
            continue;
        }
        let mut u = String::new();
        let mut last = 0;
        for (k, &i) in at.iter().enumerate() {
            let p = v.get(i).map(|t| t.start).unwrap_or(s.len());
            u.push_str(&s[last..p]);
            u.push(MARKS[k]);
            last = p;
        }
        u.push_str(&s[last..]);
        cx.about(false, &u);
        let o = f(&u);
        cx.eval();
        match o {
            Out::Err(_) => cx.count("rejected with the marks"),
            Out::Ok(o) => {
                let root = if m { typst_syntax::parse_math(&o) } else { typst_syntax::parse(&o) };
                // (decided elsewhere)
                if root.erroneous() {
                    cx.count("code does not parse");
                    continue;
                }
                let mut got = vec![];
                visible(&root, &mut got);
                let want = &MARKS[..at.len()];
                let mut sorted = got.clone();
                sorted.sort_by_key(|c| MARKS.iter().position(|d| d == c));
                let what = if got == want || floats && sorted == want {
                    cx.count("kept");
                    cx.distinct(&u);
                    cx.sample(|| format!("{u} => {o}"));
                    continue;
                } else if sorted == want {
                    "out of order"
                } else if want.iter().any(|c| !got.contains(c)) {
                    "lost"
                } else {
                    "doubled"
                };
                cx.fail(what, format!("math={m} {u:?} => {o:?}: {got:?}"));
            }
            o => cx.fail("no outcome", format!("{u:?} => {o:?}")),
        }
    }
}
