//! Conversions do not influence each other (C10): not in one process, in any order, on any number
//! of threads, with any table, nor from process to process.
use super::{macros, meta};
use crate::cx::*;
use crate::rng::Rng;
use crate::{latex, soup};
use mitex_spec::preludes::command::*;
use mitex_spec::*;
use std::sync::{Arc, Barrier};

/// tables that share names with each other, with other meanings
pub fn tables() -> &'static Vec<CommandSpec> {
    static N: std::sync::OnceLock<Vec<CommandSpec>> = std::sync::OnceLock::new();
    N.get_or_init(|| {
        let all: Vec<(String, CommandSpecItem)> = latex::spec().items().map(|x| (x.0.to_string(), x.1.clone())).collect();
        let build = |f: &dyn Fn(&str, &CommandSpecItem) -> Option<CommandSpecItem>| {
            let mut b = SpecBuilder::default();
            for (n, i) in &all {
                if let Some(i) = f(n, i) {
                    b.add_command(n, i);
                }
            }
            b
        };
        // other names in the code
        let mut a = build(&|_, i| {
            Some(match i.clone() {
                CommandSpecItem::Cmd(mut c) if c.alias.as_ref().is_some_and(|a| a.chars().all(|c| c.is_ascii_alphabetic())) => {
                    c.alias = c.alias.map(|a| format!("{a}x"));
                    CommandSpecItem::Cmd(c)
                }
                i => i,
            })
        });
        a.add_command("foo", define_symbol("foo1"));
        // other arguments, and fewer commands
        let mut b = build(&|n, i| {
            if n.len() % 3 == 0 && !matches!(n, "label" | "sum") {
                return None;
            }
            Some(match n {
                "frac" | "hat" => define_command(3),
                "alpha" => define_command_with_alias(1, "alphafn"),
                "matrix" => define_normal_env(None, "other"),
                _ => i.clone(),
            })
        });
        b.add_command("foo", define_command_with_alias(2, "foo2"));
        vec![a.build(), b.build()]
    })
}

#[derive(Clone, Debug)]
pub struct Input {
    pub math: bool,
    pub table: usize,
    pub s: String,
}

pub fn convert(i: &Input) -> Out {
    match (i.table, i.math) {
        (0, true) => math(&i.s),
        (0, false) => text(&i.s),
        (t, true) => math_spec(&i.s, &tables()[t - 1]),
        (t, false) => text_spec(&i.s, &tables()[t - 1]),
    }
}

/// sources that resemble each other
fn family(cx: &mut Cx, n: usize) -> Vec<Input> {
    let mut v: Vec<Input> = vec![];
    while v.len() < n {
        let s = match cx.rng.below(8) {
            0 | 1 => meta::formula(cx),
            2 => meta::document(cx),
            3 | 4 => macros::any_program(cx),
            5 => soup::hostile(&mut cx.rng),
            6 => (*cx.rng.pick(&[
                "\\newcommand{\\foo}{x}\\foo", "\\foo", "\\foo{a}{b}", "\\newcommand{\\bar}[1]{<#1>}\\bar{\\foo}", "\\bar{a}", "\\begin{ea}x\\end{ea}", "\\newenvironment{ea}{(}{)}\\begin{ea}x\\end{ea}",
                "\\renewcommand{\\alpha}{\\beta}\\alpha", "\\alpha", "\\providecommand{\\alpha}{y}\\alpha x", "\\iffalse \\newcommand{\\foo}{x} \\fi\\foo", "\\begin{matrix}a&b\\\\c\\end{matrix}", "a&b",
                "\\begin{matrix}a&b", "\\begin{itemize}\\item a", "\\item b", "$x", "x$", "\\left(", "\\right)", "\\substack{a\\\\b}", "{a\\\\b}", "\\bf a", "a", "\\iftrue a", "\\fi", "\\else b", "\\frac{1}{2}", "\\hat x y z",
                "\\begin{figure}\\caption{c}\\label{l}", "\\label{l}", "\\caption{c}", "\\iftypst #x \\fi", "#x",
            ]))
            .to_string(),
            _ => {
                // like one there is already
                let Some(i) = v.last().cloned() else { continue };
                let mut c: Vec<char> = i.s.chars().collect();
                if c.is_empty() {
                    continue;
                }
                let j = cx.rng.below(c.len());
                match cx.rng.below(3) {
                    0 => c[j] = if c[j] == 'a' { 'b' } else { 'a' },
                    1 => {
                        c.remove(j);
                    }
                    _ => c.push('z'),
                }
                c.into_iter().collect()
            }
        };
        if s.len() > 3000 || s.contains("mitexrec") {
            continue;
        }
        let base = Input { math: cx.rng.chance(1, 2), table: cx.rng.below(3), s };
        // the same in other ways
        if cx.rng.chance(1, 2) {
            v.push(Input { math: !base.math, ..base.clone() });
        }
        if cx.rng.chance(1, 2) {
            v.push(Input { table: (base.table + 1) % 3, ..base.clone() });
        }
        if cx.rng.chance(1, 4) {
            v.push(base.clone());
        }
        v.push(base);
    }
    cx.rng.shuffle(&mut v);
    v
}

fn compare(cx: &mut Cx, how: &str, i: &Input, first: &Out, other: &Out) -> bool {
    cx.eval();
    if first != other {
        cx.fail(format!("not the same {how}"), format!("{i:?}\nfirst: {first:?}\nthen: {other:?}"));
        return false;
    }
    true
}

pub fn case(cx: &mut Cx) {
    let v = family(cx, 12);
    let v = Arc::new(v);
    // under a sanitizer, a report ends the process
    let strict = std::env::var("MVH_SAN").is_ok();
    let first: Vec<Out> = v.iter().map(|i| {
        cx.about(strict, &i.s);
        convert(i)
    }).collect();
    for i in v.iter() {
        cx.distinct(&format!("{i:?}"));
    }
    cx.add("errors", first.iter().filter(|o| o.is_err()).count() as u64);
    // backwards
    for (j, i) in v.iter().enumerate().rev() {
        let o = convert(i);
        if !compare(cx, "in another order", i, &first[j], &o) {
            return;
        }
    }
    // tables that are made anew, or shared
    {
        let i = &v[0];
        let own = latex::spec().clone();
        let o = if i.math { math_spec(&i.s, &own) } else { text_spec(&i.s, &own) };
        let d = convert(&Input { table: 0, ..i.clone() });
        if !compare(cx, "with the default table given", i, &d, &o) {
            return;
        }
    }
    // at once
    let n = 4 + cx.rng.below(5);
    let start = Arc::new(Barrier::new(n));
    let mut hs = vec![];
    for t in 0..n {
        let (v, start) = (v.clone(), start.clone());
        let seed = cx.rng.next();
        hs.push(std::thread::spawn(move || {
            let mut r = Rng::new(seed);
            let mut order: Vec<usize> = (0..v.len()).collect();
            if t % 2 == 0 {
                r.shuffle(&mut order);
            }
            start.wait();
            order
                .into_iter()
                .map(|j| {
                    if r.chance(1, 8) {
                        std::thread::yield_now();
                    }
                    (j, convert(&v[j]))
                })
                .collect::<Vec<_>>()
        }));
    }
    for h in hs {
        let Ok(res) = h.join() else { return cx.fail("thread lost", format!("{v:?}")) };
        for (j, o) in res {
            if !compare(cx, "on several threads", &v[j], &first[j], &o) {
                return;
            }
        }
    }
    cx.add("threads", n as u64);
    cx.add("conversions at once", (n * v.len()) as u64);
    cx.sample(|| format!("{} conversions on {n} threads, e.g. {:?} => {:?}", v.len(), v[0], first[0]));
}

/// outcomes of some inputs, for a comparison between processes: `mvh digest SEED FROM TO back|forth`
pub fn digest(seed: u64, from: u64, to: u64, back: bool, raw: bool) {
    let mut cx = Cx::new("C10d", seed, false);
    let mut ks: Vec<u64> = (from..to).collect();
    if back {
        ks.reverse();
    }
    for k in ks {
        cx.start(k);
        let mut v: Vec<(usize, Input)> = family(&mut cx, 6).into_iter().enumerate().collect();
        if back {
            v.reverse();
        }
        for (j, i) in v {
            if raw {
                println!("{}", serde_json::to_string(&(i.math, i.table, &i.s)).unwrap());
                continue;
            }
            let o = convert(&i);
            println!("{k}.{j} {:016x} {}", fnv(&format!("{o:?}")), serde_json::to_string(&format!("{i:?}")).unwrap());
        }
    }
}

/// the first conversions of a process, all at once: `mvh cold SEED K`
pub fn cold(seed: u64, k: u64) {
    // the inputs are made by another process, so that nothing of the library is in use yet
    let exe = std::env::current_exe().unwrap();
    let out = std::process::Command::new(exe).args(["digest", &seed.to_string(), &k.to_string(), &(k + 1).to_string(), "raw"]).output().unwrap();
    let v: Vec<Input> = String::from_utf8_lossy(&out.stdout)
        .lines()
        .map(|l| {
            let (m, t, s): (bool, usize, String) = serde_json::from_str(l).unwrap();
            Input { math: m, table: t, s }
        })
        .collect();
    let v = Arc::new(v);
    let start = Arc::new(Barrier::new(8));
    let hs: Vec<_> = (0..8)
        .map(|t| {
            let (v, start) = (v.clone(), start.clone());
            std::thread::spawn(move || {
                start.wait();
                let n = v.len();
                (0..n).map(|j| { let j = (j + t) % n; (j, convert(&v[j])) }).collect::<Vec<_>>()
            })
        })
        .collect();
    for h in hs {
        for (j, o) in h.join().unwrap() {
            println!("{k}.{j} {:016x} {}", fnv(&format!("{o:?}")), serde_json::to_string(&format!("{:?}", v[j])).unwrap());
        }
    }
}
