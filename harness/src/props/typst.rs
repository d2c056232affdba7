//! The package in Typst (C27, C29, C30, C31).
use super::{macros, meta};
use crate::cx::*;
use crate::rng::Rng;
use crate::typ::*;
use crate::{doc, latex};

pub fn try_(args: &[String]) {
    let w = W::get();
    for a in args {
        let t = std::time::Instant::now();
        match w.compile(a) {
            Ok(d) => println!("{:?} {:?}", glyphs(&d), t.elapsed()),
            Err(e) => println!("ERROR {e} {:?}", t.elapsed()),
        }
    }
}

const HEAD: &str = "#import \"/mitex/lib.typ\": *\n";

pub fn each() {
    for n in super::table::entries() {
        let mut r = crate::rng::Rng::new(5);
        for u in super::table::uses(&mut r, n) {
            let s = latex::tex(&mut r, 0, &u);
            if let Err(e) = W::get().compile(&format!("{HEAD}#mitex({})", lit(&s))) {
                println!("{n}\t{s}\t{}", e.split(" [").next().unwrap());
            }
        }
    }
}


/// names of the table whose code Typst rejects, and names whose argument has to be of a kind
/// of its own (a length, a plain word, an existing source); not in the random workloads
const APART: &[&str] = &["Vmatrix", "argmax", "argmin", "dashleftarrow", "dashrightarrow", "textwidth", "mathscr", "hspace", "vspace", "raisebox", "cite"];

fn named(s: &str, n: &str) -> bool {
    s.match_indices(n).any(|(i, _)| {
        let b = s[..i].chars().next_back();
        (b == Some('\\') || b == Some('{')) && !s[i + n.len()..].starts_with(|c: char| c.is_ascii_alphabetic())
    })
}

fn of_entry(r: &mut crate::rng::Rng, n: &str) -> Vec<(String, bool)> {
    let lengths = ["1em", "2.5pt", "-3pt", "1cm", "12mm"];
    let l = *r.pick(&lengths);
    match n {
        "hspace" | "vspace" => return vec![(format!("a\\{n}{{{l}}} b"), true), (format!("a \\{n}{{{l}}} b"), false)],
        "raisebox" => return vec![(format!("a\\raisebox{{{l}}}{{b}} c"), true), (format!("a \\raisebox{{{l}}}{{b}} c"), false)],
        "mathscr" => return "ABELZkq".chars().map(|c| (format!("\\mathscr{{{c}}}"), true)).chain([("\\mathscr A".into(), true), ("\\mathscr{AB}".into(), true)]).collect(),
        "ref" | "eqref" => return vec![(format!("\\section{{s}}\\label{{s}} \\{n}{{s}}"), false)],
        "cite" => return vec![],
        _ => {}
    }
    let mut v = vec![];
    for u in super::table::uses(r, n) {
        let other = latex::tex(&mut Rng::new(1), 0, &u);
        if APART.iter().any(|a| *a != n && named(&other, a)) {
            continue;
        }
        let s = latex::tex(r, 0, &u);
        v.push((format!("$x{{{s}}}$ t"), false));
        v.push((s, true));
    }
    v
}

pub fn missing(e: &str) -> Vec<&str> {
    e.split("; ").filter_map(|m| m.strip_prefix("label `")?.strip_suffix(" does not exist in the document").map(|m| m.trim_end_matches('`'))).collect()
}

/// what the document gives, with the labels it refers to defined if they are not
fn compile(body: &str) -> Result<typst::layout::PagedDocument, String> {
    let head = format!("{HEAD}#set heading(numbering: \"1.\")\n#set math.equation(numbering: \"1\")\n");
    let d = W::get().compile(&format!("{head}{body}"));
    if let Err(e) = &d {
        let mut m = missing(e);
        m.sort();
        m.dedup();
        if m.len() > 0 {
            let defs: String = m.iter().map(|m| if m.starts_with("label(") { format!("#[#heading[x] #{m}]\n") } else { format!("#[#heading[x] {m}]\n") }).collect();
            return W::get().compile(&format!("{head}{defs}\n{body}"));
        }
    }
    d
}

/// C27
pub fn sets(cx: &mut Cx) {
    let names = super::table::entries();
    let name = names.get(cx.k as usize);
    let all: Vec<(String, bool)> = match name {
        Some(n) => of_entry(&mut cx.rng, n),
        None => {
            let level = cx.rng.below(3);
            if cx.rng.chance(2, 3) {
                let c = latex::Cfg { depth: 3, ..latex::Cfg::full() };
                let v = latex::list(&mut cx.rng, c);
                vec![(latex::tex(&mut cx.rng, level, &v), true)]
            } else {
                let v = doc::doc(&mut cx.rng, doc::DCfg::full());
                vec![(doc::spell(&mut cx.rng, level, &v).0.replace(".jpg", ".png").replace(".pdf", ".png"), false)]
            }
        }
    };
    for (s, m) in all {
        if name.is_none() && APART.iter().any(|n| named(&s, n)) {
            cx.count("names apart");
            continue;
        }
        let o = if m { math(&s) } else { text(&s) };
        if o.ok().is_none() {
            cx.count("not converted");
            continue;
        }
        cx.about(false, &s);
        let d = compile(&format!("#{}({})", if m { "mitex" } else { "mitext" }, lit(&s)));
        cx.eval();
        match d {
            Ok(d) => {
                cx.distinct(&s);
                cx.add("glyphs", glyphs(&d).len() as u64);
                cx.count(if m { "formulas" } else { "documents" })
            }
            Err(e) => {
                let mut e = e.split(" [").next().unwrap().to_string();
                if e.contains("occurs multiple times") || e.starts_with("cannot reference") {
                    cx.count("references of their own");
                    continue;
                }
                if let Some(n) = name {
                    e = format!("{n}: {e}");
                }
                cx.fail(e.to_string(), format!("{s:?} => {:?}: {e}", o.ok()))
            }
        }
    }
}

#[derive(Clone, Debug)]
enum N {
    Ch(char),
    /// set the rest of the group in a colour
    From(String),
    In(String, Vec<N>),
    Box(String, Vec<N>),
    G(Vec<N>),
    /// some construct around parts
    Around(&'static str, Vec<Vec<N>>),
}

struct Colours {
    free: Vec<char>,
    hex: std::collections::HashMap<String, [u8; 3]>,
}

const NAMED: &[(&str, [u8; 3])] = &[
    ("red", [255, 0, 0]),
    ("green", [0, 255, 0]),
    ("blue", [0, 0, 255]),
    ("cyan", [0, 255, 255]),
    ("magenta", [255, 0, 255]),
    ("yellow", [255, 255, 0]),
    ("black", [0, 0, 0]),
    ("white", [255, 255, 255]),
    ("gray", [128, 128, 128]),
    ("lightgray", [192, 192, 192]),
    ("darkgray", [64, 64, 64]),
    ("brown", [165, 42, 42]),
    ("orange", [255, 165, 0]),
    ("pink", [255, 182, 193]),
    ("purple", [128, 0, 128]),
    ("teal", [0, 128, 128]),
    ("olive", [128, 128, 0]),
];

impl Colours {
    /// a colour, as LaTeX has it
    fn pick(&mut self, r: &mut Rng) -> String {
        let share = |r: &mut Rng| match r.below(6) {
            0 => ("0".to_string(), 0.0),
            1 => ("1".to_string(), 1.0),
            2 => (".5".to_string(), 0.5),
            _ => {
                let n = r.below(100);
                (format!("0.{n:02}"), n as f64 / 100.0)
            }
        };
        let byte = |x: f64| (x * 255.0).round() as u8;
        let (s, c) = match r.below(8) {
            0 => {
                let (s, x) = share(r);
                (format!("[gray]{{{s}}}"), [byte(x); 3])
            }
            1 => {
                let v: Vec<_> = (0..3).map(|_| share(r)).collect();
                (format!("[rgb]{{{},{},{}}}", v[0].0, v[1].0, v[2].0), [byte(v[0].1), byte(v[1].1), byte(v[2].1)])
            }
            2 => {
                let v = [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8];
                (format!("[RGB]{{{},{},{}}}", v[0], v[1], v[2]), v)
            }
            3 => {
                let v = [r.below(256) as u8, r.below(256) as u8, r.below(256) as u8];
                (if r.chance(1, 2) { format!("[HTML]{{{:02X}{:02X}{:02X}}}", v[0], v[1], v[2]) } else { format!("[HTML]{{{:02x}{:02x}{:02x}}}", v[0], v[1], v[2]) }, v)
            }
            4 => {
                let v: Vec<_> = (0..4).map(|_| share(r)).collect();
                let c = typst::visualize::Color::Cmyk(typst::visualize::Cmyk { c: v[0].1 as f32, m: v[1].1 as f32, y: v[2].1 as f32, k: v[3].1 as f32 }).to_hex().to_string();
                let n = u32::from_str_radix(&c[1..7], 16).unwrap();
                (format!("[cmyk]{{{},{},{},{}}}", v[0].0, v[1].0, v[2].0, v[3].0), [(n >> 16) as u8, (n >> 8) as u8, n as u8])
            }
            _ => {
                let (n, c) = r.pick(NAMED);
                (format!("{{{n}}}"), *c)
            }
        };
        self.hex.insert(s.clone(), c);
        s
    }

    fn list(&mut self, r: &mut Rng, depth: usize, m: bool) -> Vec<N> {
        let mut v = vec![];
        for _ in 0..1 + r.below(4) {
            let k = if depth == 0 { 0 } else { r.below(9) };
            match k {
                4 => v.push(N::From(self.pick(r))),
                5 => v.push(N::In(self.pick(r), self.list(r, depth - 1, m))),
                6 => v.push(N::Box(self.pick(r), self.list(r, depth - 1, m))),
                7 => v.push(N::G(self.list(r, depth - 1, m))),
                8 => {
                    let (c, n) = *if m { r.pick(&[("\\frac", 2), ("\\sqrt", 1), ("\\overline", 1), ("\\left(", 1), ("^", 1), ("cases", 2), ("matrix", 2)]) } else { r.pick(&[("\\textbf", 1), ("\\emph", 1), ("$", 1), ("itemize", 2), ("quote", 1)]) };
                    v.push(N::Around(c, (0..n).map(|_| self.list(r, depth - 1, m || c == "$")).collect()));
                }
                _ => {
                    if let Some(c) = self.free.pop() {
                        v.push(N::Ch(c))
                    }
                }
            }
        }
        v
    }
}

fn spell(v: &[N], r: &mut Rng, m: bool, o: &mut String) {
    for (i, n) in v.iter().enumerate() {
        match n {
            N::Ch(c) => {
                o.push(*c);
                if r.chance(1, 3) {
                    o.push(' ')
                }
            }
            N::From(c) => {
                o.push_str("\\color");
                o.push_str(c);
                o.push_str(if r.chance(1, 2) { " " } else { "" });
            }
            N::In(c, v) | N::Box(c, v) => {
                o.push_str(if matches!(n, N::In(..)) { "\\textcolor" } else { "\\colorbox" });
                o.push_str(c);
                o.push('{');
                spell(v, r, m, o);
                o.push('}');
            }
            N::G(v) => {
                o.push('{');
                spell(v, r, m, o);
                o.push('}');
            }
            N::Around(c, p) => match *c {
                "^" => {
                    if i == 0 || matches!(v[i - 1], N::From(_)) {
                        o.push_str("{}");
                    }
                    o.push_str("^{");
                    spell(&p[0], r, m, o);
                    o.push('}');
                }
                "$" => {
                    o.push('$');
                    spell(&p[0], r, true, o);
                    o.push_str("$ ");
                }
                "\\left(" => {
                    o.push_str("\\left(");
                    spell(&p[0], r, m, o);
                    o.push_str("\\right)");
                }
                "quote" => {
                    o.push_str("\n\\begin{quote}");
                    spell(&p[0], r, m, o);
                    o.push_str("\\end{quote}");
                }
                "itemize" => {
                    o.push_str("\n\\begin{itemize}\n");
                    for p in p {
                        o.push_str("\\item ");
                        spell(p, r, m, o);
                        o.push('\n');
                    }
                    o.push_str("\\end{itemize}\n");
                }
                "cases" | "matrix" => {
                    o.push_str(&format!("\\begin{{{c}}}"));
                    spell(&p[0], r, m, o);
                    o.push_str(if *c == "cases" || r.chance(1, 2) { "\\\\" } else { "&" });
                    spell(&p[1], r, m, o);
                    o.push_str(&format!("\\end{{{c}}}"));
                }
                _ => {
                    o.push_str(c);
                    for p in p {
                        o.push('{');
                        spell(p, r, m, o);
                        o.push('}');
                    }
                }
            },
        }
    }
}

type Tint<'a> = (char, &'a str, &'a str);
fn tint<'a>(v: &'a [N], mut fill: &'a str, bg: &'a str, out: &mut Vec<Tint<'a>>) -> &'a str {
    for n in v {
        let was = fill;
        match n {
            N::Ch(c) => out.push((*c, fill, bg)),
            N::From(c) => fill = c,
            N::In(c, v) => {
                tint(v, c, bg, out);
            }
            N::Box(c, v) => {
                tint(v, fill, c, out);
            }
            N::G(v) => {
                tint(v, fill, bg, out);
            }
            N::Around(c, p) => {
                // (a box is as high as a line, not as what stands in it)
                let bg = if bg.is_empty() { bg } else { "?" };
                if *c == "itemize" {
                    p.iter().for_each(|v| fill = tint(v, fill, bg, out));
                    fill = was;
                } else {
                    p.iter().for_each(|v| {
                        tint(v, fill, bg, out);
                    })
                }
            }
        }
    }
    fill
}

/// an ordinary letter for one of a formula
fn plain_letter(c: char) -> char {
    match c as u32 {
        0x1d400..=0x1d6a3 => {
            let n = (c as u32 - 0x1d400) % 52;
            if n < 26 {
                (b'A' + n as u8) as char
            } else {
                (b'a' + (n - 26) as u8) as char
            }
        }
        0x1d7ce..=0x1d7ff => (b'0' + ((c as u32 - 0x1d7ce) % 10) as u8) as char,
        0x210e => 'h',
        _ => c,
    }
}

/// C29
pub fn colours(cx: &mut Cx) {
    let m = cx.rng.chance(1, 2);
    let mut free: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').collect();
    cx.rng.shuffle(&mut free);
    let mut c = Colours { free, hex: Default::default() };
    let v = c.list(&mut cx.rng, 3, m);
    let mut s = String::new();
    spell(&v, &mut cx.rng, m, &mut s);
    let mut want = vec![];
    tint(&v, "", "", &mut want);
    if want.is_empty() || c.hex.is_empty() {
        return;
    }
    cx.about(false, &s);
    let d = W::get().compile(&format!("{HEAD}#{}({})", if m { "mitex" } else { "mitext" }, lit(&s)));
    cx.eval();
    let d = match d {
        Ok(d) => d,
        Err(e) => return cx.fail(format!("not set: {}", e.split(" [").next().unwrap()), format!("{s} => {:?}: {e}", if m { math(&s) } else { text(&s) })),
    };
    let got = tinted(&d);
    let rgb = |h: &str| u32::from_str_radix(h.get(1..7).unwrap_or("x"), 16).ok().map(|n| [(n >> 16) as u8, (n >> 8) as u8, n as u8]);
    let near = |h: &str, want: &str| match (rgb(h), if want.is_empty() { None } else { c.hex.get(want) }) {
        (Some(a), Some(b)) => a.iter().zip(b).all(|(a, b)| a.abs_diff(*b) <= 1),
        (a, None) => a.is_none_or(|a| a == [0, 0, 0]),
        _ => false,
    };
    for (ch, fill, bg) in &want {
        let found: Vec<_> = got.iter().filter(|g| plain_letter(g.0) == *ch).collect();
        if found.len() != 1 {
            return cx.fail("a character is not set once", format!("{ch:?} in {s} => {got:?}"));
        }
        if !near(&found[0].1, fill) {
            return cx.fail("a character of another colour", format!("{ch:?} in {s} is {}, not {fill}", found[0].1));
        }
        if *bg != "?" && !near(&found[0].2, bg) {
            return cx.fail("a character on another colour", format!("{ch:?} in {s} is on {}, not {bg}", found[0].2));
        }
        cx.count("characters");
    }
    cx.distinct(&s);
    cx.sample(|| format!("{s}: {want:?}"));
}
