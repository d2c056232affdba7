//! Glob patterns against a set-of-states matcher (C07).
use crate::cx::*;
use crate::rng::Rng;

#[derive(Clone, Debug)]
enum G {
    Lit(char),
    Any,
    Star,
    Class(bool, Vec<(char, char)>),
    Alt(Vec<Vec<G>>),
}

const SIGMA: &[char] = &['b', 'p', 't', 'x'];

/// signs, classes and stars without choices
fn plain(r: &mut Rng) -> Vec<G> {
    (0..r.below(6))
        .map(|_| match r.below(8) {
            0 => G::Any,
            1 | 2 => G::Star,
            3 => G::Class(r.chance(1, 3), vec![('b', *r.pick(&['b', 'p', 't']))]),
            _ => G::Lit(*r.pick(&['b', 'p', 't'])),
        })
        .collect()
}

fn show(v: &[G], o: &mut String) {
    for g in v {
        match g {
            G::Lit(c) => o.push(*c),
            G::Any => o.push('?'),
            G::Star => o.push('*'),
            G::Class(n, v) => {
                o.push('[');
                if *n {
                    o.push('!');
                }
                for (a, b) in v {
                    o.push(*a);
                    if a != b {
                        o.push('-');
                        o.push(*b);
                    }
                }
                o.push(']');
            }
            G::Alt(v) => {
                o.push('{');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    show(x, o);
                }
                o.push('}');
            }
        }
    }
}

/// the remainders of `s` after each way the pattern can consume a part of it; None stands for a
/// pattern that is still hungry when `s` is used up
fn ends(v: &[G], s: &[char], out: &mut Vec<Option<usize>>, at: usize) {
    let Some((g, rest)) = v.split_first() else {
        out.push(Some(at));
        return;
    };
    let mut one = |f: &dyn Fn(char) -> bool| {
        if at == s.len() {
            out.push(None);
        } else if f(s[at]) {
            ends(rest, s, out, at + 1);
        }
    };
    match g {
        G::Lit(c) => one(&|x| x == *c),
        G::Any => one(&|x| x != '/'),
        G::Class(n, v) => one(&|x| v.iter().any(|(a, b)| *a <= x && x <= *b) != *n),
        G::Star => {
            for e in at..=s.len() {
                ends(rest, s, out, e);
            }
        }
        G::Alt(v) => {
            for x in v {
                let mut mid = vec![];
                ends(x, s, &mut mid, at);
                for m in mid {
                    match m {
                        None => out.push(None),
                        Some(m) => ends(rest, s, out, m),
                    }
                }
            }
        }
    }
}

/// a choice between nothing, a sign, and words that begin with another sign and end with a choice
fn nested(r: &mut Rng, depth: usize, after: &mut Vec<char>) -> G {
    let mut first = vec!['b', 'p', 't'];
    let mut alts = vec![];
    for _ in 0..1 + r.below(2) {
        let mut w = vec![G::Lit(first.swap_remove(r.below(first.len())))];
        if depth > 0 && r.chance(2, 3) {
            w.push(nested(r, depth - 1, after));
        }
        alts.push(w);
    }
    if r.chance(1, 2) {
        let at = r.below(alts.len() + 1);
        // what follows begins with another sign
        for w in &alts {
            let G::Lit(c) = w[0] else { continue };
            after.push(c);
        }
        alts.insert(at, vec![]);
    }
    G::Alt(alts)
}

/// Patterns of the command table: units in a row, each a sign, a class, or a choice between words
/// that begin with different signs (or nothing, when what follows begins differently). The word
/// that is taken is determined by the next sign, as the greedy matcher needs.
fn table(r: &mut Rng) -> Vec<G> {
    let mut v: Vec<G> = vec![];
    // signs that must not begin the next unit
    let mut taken: Vec<char> = vec![];
    let n = r.below(6);
    for i in 0..n {
        let free: Vec<char> = ['b', 'p', 't'].into_iter().filter(|c| !taken.contains(c)).collect();
        if free.is_empty() {
            break;
        }
        match r.below(8) {
            0 if taken.is_empty() => {
                v.push(G::Any);
            }
            1 => {
                let a = *r.pick(&free);
                let mut c = vec![(a, a)];
                if r.chance(1, 2) {
                    let b = *r.pick(&free);
                    c.push((b, b));
                }
                if taken.is_empty() && r.chance(1, 3) {
                    c = vec![('b', *r.pick(&['b', 'p', 't']))];
                }
                v.push(G::Class(taken.is_empty() && r.chance(1, 4), c));
                taken.clear();
            }
            2..=5 => {
                let mut first = free.clone();
                let mut alts: Vec<Vec<G>> = vec![];
                let k = 1 + r.below(free.len());
                let opt = r.chance(2, 3);
                let mut used = vec![];
                let mut after = vec![];
                for _ in 0..k {
                    let c = first.swap_remove(r.below(first.len()));
                    used.push(c);
                    let mut w = vec![G::Lit(c)];
                    for _ in 0..r.below(6).saturating_sub(3) {
                        w.push(G::Lit(*r.pick(&['b', 'p', 't'])));
                    }
                    // a choice within the word
                    if r.chance(1, 4) {
                        w.push(nested(r, 6, &mut after));
                    }
                    alts.push(w);
                }
                if opt {
                    let at = r.below(alts.len() + 1);
                    alts.insert(at, vec![]);
                    taken.extend(used);
                } else {
                    taken.clear();
                }
                taken.extend(after);
                let g = G::Alt(alts);
                // an optional unit may stand twice in a row
                if opt && r.chance(1, 6) && matches!(&g, G::Alt(v) if v.iter().all(|w| w.len() < 2)) {
                    v.push(g.clone());
                }
                v.push(g);
            }
            6 if i + 1 == n && taken.is_empty() => v.push(G::Star),
            _ => {
                v.push(G::Lit(*r.pick(&free)));
                taken.clear();
            }
        }
    }
    v
}

/// a random pattern of the command table's kind, with its own prefix matcher
pub struct Pattern {
    units: Vec<G>,
    pub text: String,
}
impl Pattern {
    pub fn random(r: &mut Rng) -> Pattern {
        let units = table(r);
        let mut text = String::new();
        show(&units, &mut text);
        Pattern { units, text }
    }
    pub fn prefix(&self, s: &str) -> bool {
        let s: Vec<char> = s.chars().collect();
        let mut e = vec![];
        ends(&self.units, &s, &mut e, 0);
        e.iter().any(|x| x.is_none() || *x == Some(s.len()))
    }
}

pub fn case(cx: &mut Cx) {
    let v = if cx.rng.chance(1, 6) { plain(&mut cx.rng) } else { table(&mut cx.rng) };
    let mut p = String::new();
    show(&v, &mut p);
    for _ in 0..6 {
        let s: Vec<char> = (0..cx.rng.below(6)).map(|_| *cx.rng.pick(SIGMA)).collect();
        let t: String = s.iter().collect();
        let mut e = vec![];
        ends(&v, &s, &mut e, 0);
        let full = e.iter().any(|x| *x == Some(s.len()));
        let prefix = full || e.iter().any(|x| x.is_none());
        cx.about(true, &format!("{p} {t}"));
        cx.eval();
        let got = guard(|| mitex_glob::glob_match_prefix(&p, &t));
        match got {
            Err(x) => cx.fail(format!("panic {x}"), format!("{p:?} {t:?}")),
            Ok(a) => {
                if a != prefix {
                    cx.fail("prefix", format!("pattern {p:?}, input {t:?}: matcher {a}, reference {prefix}"));
                }
                cx.count(match (prefix, full) {
                    (_, true) => "full match",
                    (true, _) => "prefix only",
                    _ => "no match",
                });
                cx.distinct(&format!("{p} {t}"));
                cx.sample(|| format!("{p:?} {t:?}: prefix {a}"));
            }
        }
    }
}
