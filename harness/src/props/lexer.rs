//! The token stream against an independent lexer (C03).
use crate::cx::*;
use crate::reflex;
use crate::soup;
use mitex_lexer::{Lexer, Token};

fn specs() -> &'static Vec<mitex_spec::CommandSpec> {
    static S: std::sync::OnceLock<Vec<mitex_spec::CommandSpec>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        use mitex_spec::preludes::command::*;
        let mut b = SpecBuilder::default();
        for n in ["f", "f*", "foo", "foo*", "a", "@x*", "begin*", "alpha*", "iftrue*", "left*"] {
            b.add_command(n, TEX_CMD1);
        }
        vec![mitex_spec_gen::DEFAULT_SPEC.clone(), b.build(), mitex_spec::CommandSpec::new(Default::default())]
    })
}

/// inputs that stress the lexer: names, stars, clauses, comments, odd spaces, long runs
fn input(cx: &mut Cx) -> String {
    let r = &mut cx.rng;
    match r.below(6) {
        0 => {
            let mut s = String::new();
            for _ in 0..1 + r.below(12) {
                s.push_str(r.pick(&[
                    "\\", "\\f", "\\f*", "\\foo*", "\\foo**", "\\@x*", "\\begin", "\\end", "{", "}", " ", "%", "\n", "\r", "%x\n", "matrix", "align*", "a@b", "*", "@", "\\a*b",
                    "\\begin{a}", "\\end {a*}", "\\begin%c\n{b}", "\\begin{b%c\n}", "\\begin{b }", "\\begin{ b}", "é", "中", "\u{a0}", "\u{2028}", "\u{85}", "\u{3000}", "\u{200b}", "$", "$$", "\\(", "\\]",
                    "\\é", "\\ ", "\\\\", "\\\n", "\\iftrue", "\\ifx", "\\fi", "\\else", "\\left", "\\leftarrow", "\\lefty", "\\fi*", "\\operatorname*", "\\begin*", "\\alpha*",
                ]))
            }
            s
        }
        1 => {
            // more tokens than a page
            let n = *r.pick(&[165, 169, 170, 171, 172, 339, 340, 341, 511, 600]);
            let mut s = String::new();
            for _ in 0..n {
                s.push_str(r.pick(&["a ", "{", "}", "&", "\\\\", "\\f ", "$", "%\n", "\\begin{m}", "^", "1"]));
            }
            s
        }
        2 => {
            let mut s = String::new();
            for _ in 0..1 + r.below(30) {
                if let Some(c) = char::from_u32(match r.below(5) {
                    0 | 1 => 32 + r.below(96) as u32,
                    2 => r.below(0x300) as u32,
                    3 => 0x2000 + r.below(0x100) as u32,
                    _ => r.below(0x11_0000) as u32,
                }) {
                    s.push(c)
                }
            }
            s
        }
        _ => soup::hostile(r),
    }
}

pub fn case(cx: &mut Cx) {
    let s = input(cx);
    let i = cx.rng.below(4).saturating_sub(1);
    let spec = &specs()[i];
    cx.about(true, &s);
    let want = reflex::lex(&s, spec);
    let got = guard(|| {
        let mut l = Lexer::<()>::new(&s, spec.clone());
        let mut v = vec![];
        loop {
            let p = (l.peek(), l.peek_text(), l.peek_char());
            let Some((k, t)) = l.eat() else {
                assert!(p == (None, None, None), "peeked at a token that does not come");
                break;
            };
            assert!(p == (Some(k), Some(t), t.chars().next()), "peeked at another token");
            let a = t.as_ptr() as usize - s.as_ptr() as usize;
            v.push((k, a, a + t.len()));
            assert!(v.len() <= s.len() + 1, "more tokens than characters");
        }
        v
    });
    cx.eval();
    let got = match got {
        Ok(g) => g,
        Err(p) => return cx.fail(format!("panic {p}"), format!("{s:?}")),
    };
    let w: Vec<(Token, usize, usize)> = want.iter().map(|t| (t.kind, t.text.0, t.text.1)).collect();
    if got != w {
        let i = got.iter().zip(&w).take_while(|(a, b)| a == b).count();
        return cx.fail("tokens differ", format!("input {s:?}, spec {i}\nat token {i}: lexer {:?}, reference {:?}", got.get(i), w.get(i)));
    }
    cx.add("tokens", w.len() as u64);
    cx.max("tokens in one input", w.len() as u64);
    cx.distinct(&s);
    for t in &w {
        if let Token::CommandName(n) = t.0 {
            cx.count(&format!("{n:?}"));
        }
    }
    cx.sample(|| format!("{s:?} -> {} tokens", w.len()));
    // robbing characters off the front of a word leaves the rest of it as the next token
    let mut l = Lexer::<()>::new(&s, spec.clone());
    let mut pos = 0;
    let mut bad = None;
    for t in &w {
        let Some(x) = l.peek_text() else {
            bad = Some("stream ends early");
            break;
        };
        if t.0 == Token::Word && x.chars().count() > 1 {
            let c = x.chars().next().unwrap();
            l.consume_utf8_bytes(c.len_utf8());
            if l.peek_text() != Some(&x[c.len_utf8()..]) || l.peek() != Some(Token::Word) {
                bad = Some("rest of a word is lost");
                break;
            }
            l.consume_utf8_bytes(x.len() - c.len_utf8());
        } else {
            l.eat();
        }
        pos += 1;
    }
    if bad.is_none() && l.peek().is_some() {
        bad = Some("tokens left over");
    }
    if let Some(b) = bad {
        cx.fail(b, format!("{s:?} at token {pos}"));
    }
}
