//! The work of a conversion grows with the source, not faster (C02).
use crate::cx::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// counts what the calling thread asks for
pub struct Counting;

thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = BYTES.try_with(|b| b.set(b.get() + l.size() as u64));
        let _ = CALLS.try_with(|b| b.set(b.get() + 1));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = BYTES.try_with(|b| b.set(b.get() + n as u64));
        let _ = CALLS.try_with(|b| b.set(b.get() + 1));
        System.realloc(p, l, n)
    }
}

fn cpu() -> f64 {
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    extern "C" {
        fn clock_gettime(id: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts { s: 0, n: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.s as f64 + t.n as f64 * 1e-9
}

#[derive(Clone, Copy, Debug)]
struct Cost {
    cpu: f64,
    bytes: u64,
    calls: u64,
    out: usize,
}

fn cost(m: bool, s: &str, times: usize) -> (Cost, Out) {
    let mut best = Cost { cpu: f64::MAX, bytes: 0, calls: 0, out: 0 };
    let mut last = Out::Err(String::new());
    for _ in 0..times {
        let (b, c, t) = (BYTES.with(|x| x.get()), CALLS.with(|x| x.get()), cpu());
        let o = if m { math(s) } else { text(s) };
        let d = cpu() - t;
        if d < best.cpu {
            best.cpu = d;
        }
        best.bytes = BYTES.with(|x| x.get()) - b;
        best.calls = CALLS.with(|x| x.get()) - c;
        best.out = match &o {
            Out::Ok(s) | Out::Err(s) | Out::Panic(s) => s.len(),
        };
        last = o;
    }
    (best, last)
}

const MATH: &[&str] = &[
    "a", "a ", "ab12 ", "+", "\\alpha ", "\\alpha\\beta", "x_1", "x_1^2 ", "x^{a+b}", "x'", "'", "_a", "^2", "{a}", "{", "{}", "[a]", "[", "(a)", ")", "\\frac{1}{2}", "\\frac12", "\\hat x", "\\sqrt[3]{x}", "\\sqrt x",
    "\\left(a\\right)", "\\left.x\\right|", "\\sum\\limits_1", "\\limits ", "a\\limits ", "&", "\\\\", "a&b\\\\", "%c\n", " ", "\n", "\n\n", "~", "\\ ", "\\,", "\\text{a b}", "\\begin{matrix}a&b\\\\c\\end{matrix}",
    "\\begin{cases}a\\\\b\\end{cases}", "\\begin{aligned}a&b\\end{aligned}", "\\substack{a\\\\b}", "\\mathrm{ab}", "\\operatorname{lim}", "{a\\over b}", "{\\bf a}", "\\bf a", "\\displaystyle ", "\\over ", "\\#", "\\%", "\"", "/",
    ";", ",", "é中", "\\iftrue a\\fi ", "\\iffalse a\\fi ", "\\iffalse a\\else b\\fi ", "\\iftrue ", "\\f ", "\\f{a}", "\\g ab", "\\h{\\f}", "\\newcommand{\\q}{a}", "\\renewcommand{\\f}{b}\\f ", "\\providecommand{\\f}{b}",
    "\\begin{e}a\\end{e}", "\\color{red}a", "\\textcolor{red}{a}", "\\label{a}", "\\tag{1}", "\\middle|", "#1", "$", "\\foo", "}", "\\right)", "\\end{matrix}", "\\fi ", "\\else ", "\\left(", "\\begin{matrix}", "\\hat", "\\frac{1}",
];
const TEXT: &[&str] = &[
    "a", "a b ", "word word. ", "\n", "\n\n", "\n \n", "$x$", "\\(x_1\\)", "$$a$$ ", "\\[b\\]", "\\textbf{a}", "\\textbf a", "\\emph{a \\textit{b}}", "\\section{a}", "\\item a", "\\item a\n", "\\item \n\n", "``a'' ", "`a' ", "~", "\\%",
    "\\&", "\\ref{a}", "\\cite{a}", "\\label{a}", "%c\n", "{a}", "{", "[a]", "(", "*", "_", "#", "=", "- ", "+ ", "1. ", "// ", "https://a.b ", "\\\\", "\\begin{equation}a\\end{equation}", "\\begin{itemize}\\item a\\end{itemize}",
    "\\begin{quote}a\\end{quote}", "\\begin{tabular}{ll}a&b\\\\c&d\\end{tabular}", "a&b\\\\\\hline ", "\\begin{figure}\\caption{a}\\label{b}\\end{figure}", "\\caption{a}", "\\label{x}", "\\includegraphics[width=1cm]{a}", "\\color{red} a",
    "\\textcolor{red}{a}", "\\footnote{a}", "é中", "\\f ", "\\f{a}", "\\g ab", "\\begin{e}a\\end{e}", "\\newcommand{\\q}{a}", "\\iftrue a\\fi ", "\\iftypst #a \\fi ", "\\iftypst a\\else b\\fi ", "&", "\"", "'", "$", "}", "\\foo", "\\alpha ",
];
const AROUND: &[(bool, &str, &str)] = &[
    (true, "", ""),
    (true, "{", "}"),
    (true, "x_{", "}"),
    (true, "\\frac{", "}{2}"),
    (true, "\\sqrt[", "]{x}"),
    (true, "\\left(", "\\right)"),
    (true, "\\begin{matrix}", "\\end{matrix}"),
    (true, "\\begin{array}{cc}", "\\end{array}"),
    (true, "\\begin{cases}", "\\end{cases}"),
    (true, "\\begin{aligned}", "\\end{aligned}"),
    (true, "\\substack{", "}"),
    (true, "\\text{", "}"),
    (true, "a\\over ", ""),
    (true, "\\bf ", ""),
    (true, "", "\\over b"),
    (true, "\\h{", "}"),
    (true, "\\begin{e}", "\\end{e}"),
    (true, "\\newcommand{\\z}{", "}\\z"),
    (true, "\\iffalse ", "\\fi x"),
    (true, "\\iftrue ", "\\fi x"),
    (true, "\\foo", ""),
    (true, "\\color{red}", ""),
    (false, "", ""),
    (false, "{", "}"),
    (false, "$", "$"),
    (false, "\\[", "\\]"),
    (false, "\\textbf{", "}"),
    (false, "\\section{", "}"),
    (false, "\\begin{itemize}\\item ", "\\end{itemize}"),
    (false, "\\begin{itemize}\\item a\\begin{enumerate}\\item b ", "\\end{enumerate}\\end{itemize}"),
    (false, "\\begin{quote}", "\\end{quote}"),
    (false, "\\begin{figure}", "\\end{figure}"),
    (false, "\\begin{table}\\begin{tabular}{lcr}", "\\end{tabular}\\end{table}"),
    (false, "\\begin{tabular}{", "}a&b\\end{tabular}"),
    (false, "\\label{", "}"),
    (false, "\\includegraphics[width=1cm]{", "}"),
    (false, "\\textcolor{red}{", "}"),
    (false, "\\color{red} ", ""),
    (false, "\\begin{equation}", "\\end{equation}"),
    (false, "\\iftypst ", "\\fi x"),
    (false, "\\iffalse ", "\\fi x"),
    (false, "\\f ", ""),
    (false, "\\begin{e}", "\\end{e}"),
    (false, "``", "''"),
];
const DEFS: &str = "\\newcommand{\\f}{x}\\newcommand{\\g}[2]{#2#1}\\newcommand{\\h}[1]{[#1]}\\newenvironment{e}{(}{)}";

pub fn case(cx: &mut Cx) {
    if cx.rng.chance(1, 8) {
        return expand(cx);
    }
    let (m, pre, post) = *cx.rng.pick(AROUND);
    let mut unit = String::new();
    for _ in 0..1 + cx.rng.below(3) {
        let from = if m || cx.rng.chance(1, 4) { MATH } else { TEXT };
        unit.push_str(cx.rng.pick(from));
    }
    let small = if cx.thorough { 60_000 } else if cx.rng.chance(1, 25) { 100_000 } else { 12_000 };
    let n = (small / unit.len()).max(10) & !1;
    let defs = if unit.contains("\\f") || unit.contains("\\g") || unit.contains("\\h{") || unit.contains("{e}") || pre.contains("\\h{") || pre.contains("{e}") || pre.contains("\\f") { DEFS } else { "" };
    let make = |n: usize| format!("{defs}{pre}{}{post}", unit.repeat(n));
    let what = format!("{pre}({unit:?})*{post}");
    cx.about(true, &format!("math={m} {what} {n} times"));
    const X: usize = 8;
    let (a, oa) = cost(m, &make(n), 2);
    let big = make(X * n);
    let (b, o) = cost(m, &big, 1);
    cx.eval();
    cx.distinct(&format!("{m} {what}"));
    cx.count(if o.is_err() { "repetitions rejected" } else { "repetitions converted" });
    cx.sample(|| format!("{what}: {} bytes in {:.1} ms, {} bytes in {:.1} ms, {} bytes allocated, {} bytes of code", big.len() / X, a.cpu * 1e3, big.len(), b.cpu * 1e3, b.bytes, b.out));
    cx.max("growth of allocations by 8 (times 10)", b.bytes * 10 / a.bytes.max(1));
    if let Out::Panic(p) = o {
        return cx.fail("panic", format!("{what}: {p}"));
    }
    // code and allocations grow like the source (both are exact)
    let slack = 2 * X as u64;
    if b.bytes > 200 * big.len() as u64 && b.bytes > a.bytes * slack || b.calls > big.len() as u64 && b.calls > a.calls * slack {
        cx.fail("memory grows faster than the source", format!("math={m} {what}: {n} times {a:?}, {} times {b:?}", X * n));
    }
    if oa.ok().is_some() && b.out > 1000 && b.out > a.out * slack as usize {
        cx.fail("code grows faster than the source", format!("math={m} {what}: {n} times {a:?}, {} times {b:?}", X * n));
    }
    // time is measured, so suspicion has to stand
    let steep = |a: &Cost, b: &Cost| b.cpu > 0.02 && b.cpu > a.cpu * 3.0 * X as f64;
    if steep(&a, &b) {
        cx.count("measured again");
        let (a1, _) = cost(m, &make(n), 5);
        let (b1, _) = cost(m, &big, 3);
        let (a2, _) = cost(m, &make(2 * n), 5);
        let (b2, _) = cost(m, &make(2 * X * n), 2);
        if steep(&a1, &b1) && steep(&a2, &b2) {
            cx.fail("time grows faster than the source", format!("math={m} {what}: {n} times {a1:?}, {} times {b1:?}, {} times {a2:?}, {} times {b2:?}", X * n, 2 * n, 2 * X * n));
        }
    }
}

/// whatever macros expand to, the work is bounded
fn expand(cx: &mut Cx) {
    let r = &mut cx.rng;
    let mut s = String::new();
    let depth = 1 + r.below(40);
    let fan = 1 + r.below(4);
    let filler = *r.pick(&["", "x", "{x}", "\\alpha ", "_1", "\\frac12", "$x$", "\\iftrue ", "\\iffalse ", "\\fi ", "\\if ", "\\left(", "\\begin{matrix}", "&", "\\\\", "#1", "{", "}", "\\newcommand{\\y}{z}", "\\renewcommand{\\aa}{\\ab\\ab}", "\\item "]);
    let name = |i: usize| format!("\\a{}{}", (b'a' + (i / 26) as u8) as char, (b'a' + (i % 26) as u8) as char);
    let kind = r.below(4);
    for i in 0..depth {
        // a chain, a ring, or what comes
        let next = match kind {
            0 => i + 1,
            1 => (i + 1) % depth,
            _ => r.below(depth + 1),
        };
        let arg = r.chance(1, 3);
        let call = |j: usize| format!("{}{}", name(j), if arg { "{#1#1}" } else { "{}" });
        if arg {
            s += &format!("\\newcommand{{{}}}[1]{{{filler}{}#1}}", name(i), call(next).repeat(fan));
        } else {
            s += &format!("\\newcommand{{{}}}{{{}{filler}}}", name(i), call(next).repeat(fan));
        }
    }
    s += &format!("\\newcommand{{{}}}{{y}}", name(depth));
    s += &format!("{}{{a}}", name(0));
    let m = cx.rng.chance(1, 2);
    cx.about(true, &s);
    let (c, o) = cost(m, &s, 1);
    cx.eval();
    cx.distinct(&s);
    cx.max("ms of CPU for an expansion", (c.cpu * 1e3) as u64);
    cx.max("MB allocated for an expansion", c.bytes >> 20);
    cx.count(match &o {
        Out::Ok(_) => "expansions converted",
        _ => "expansions rejected",
    });
    match &o {
        Out::Panic(p) => cx.fail("panic", format!("{s}: {p}")),
        _ if c.cpu > 20.0 => {
            let (c2, _) = cost(m, &s, 1);
            if c2.cpu > 15.0 {
                cx.fail("expansion is not bounded", format!("{c2:?} {s}"));
            }
        }
        _ if c.bytes > 8 << 30 => cx.fail("expansion is not bounded", format!("{c:?} {s}")),
        _ => {}
    }
}
