use super::{macros, meta};
use crate::cx::*;
use crate::soup;

pub fn has_macro(s: &str) -> bool {
    s.contains("newcommand") || s.contains("providecommand") || s.contains("DeclareRobust") || s.contains("newenvironment") || s.contains("renewenvironment")
}

/// a structured source with a few signs dropped, doubled, moved or put in
fn damaged(cx: &mut Cx) -> String {
    let s = match cx.rng.below(4) {
        0 => meta::formula(cx),
        1 => meta::document(cx),
        _ => macros::any_program(cx),
    };
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..cx.rng.below(5) {
        if v.is_empty() {
            break;
        }
        let i = cx.rng.below(v.len());
        match cx.rng.below(4) {
            0 => {
                let n = 1 + cx.rng.below(4);
                v.drain(i..(i + n).min(v.len()));
            }
            1 => {
                let n = (i + 1 + cx.rng.below(12)).min(v.len());
                let w = v[i..n].to_vec();
                let j = cx.rng.below(v.len() + 1);
                v.splice(j..j, w);
            }
            2 => v.truncate(i),
            _ => {
                let p = *cx.rng.pick(&[
                    "{", "}", "[", "]", "$", "$$", "\\", "&", "\\\\", "_", "^", "'", "#", "#1", "#9", "\\left", "\\right", "\\begin{", "\\end{", "\\over", "\\limits", "\\fi", "\\else", "\\iffalse",
                    "\\iftypst", "\\item", "\\label", "\\[", "\\]", "\\(", "\\)", "%", "\n\n", "\\newcommand", "\\middle", "\\substack", "\\color", "\u{301}",
                ]);
                v.splice(i..i, p.chars());
            }
        }
    }
    v.into_iter().collect()
}

pub fn case(cx: &mut Cx) {
    let s = match cx.rng.below(50) {
        0 => soup::repeated(&mut cx.rng, if cx.thorough { 20000 } else { 3000 }),
        1..=25 => damaged(cx),
        _ => soup::hostile(&mut cx.rng),
    };
    let table = cx.rng.chance(1, 10).then(|| super::spec::strange(&mut cx.rng));
    match &table {
        Some(t) => cx.about(true, &format!("{s}\nwith the table {:?}", t.to_bytes())),
        None => cx.about(true, &s),
    }
    for m in [true, false] {
        let o = match &table {
            Some(t) if m => math_spec(&s, t),
            Some(t) => text_spec(&s, t),
            None if m => math(&s),
            None => text(&s),
        };
        if table.is_some() {
            cx.count("with another table");
        }
        cx.eval();
        cx.distinct(&s);
        match o {
            Out::Ok(_) => cx.count("ok"),
            Out::Err(e) => {
                cx.count("err");
                if e.trim().is_empty() {
                    cx.fail("empty error", format!("{s:?}"));
                }
            }
            Out::Panic(p) => {
                cx.count("panic");
                cx.fail(format!("panic {p}"), format!("math={m} {s:?} table={}", table.is_some()));
            }
        }
    }
}
