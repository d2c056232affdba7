//! Hostile workload: token soup, mutated corpus lines, raw unicode noise, structured-but-broken LaTeX.
use crate::rng::Rng;

pub const CORPUS: &str = include_str!("../corpus/seeds.txt");

pub fn corpus() -> Vec<&'static str> {
    CORPUS.split("\n\u{1e}\n").filter(|s| !s.is_empty()).collect()
}

/// punctuation / structural tokens
pub const STRUCT: &[&str] = &[
    "{", "}", "[", "]", "(", ")", "$", "$$", "\\(", "\\)", "\\[", "\\]", "^", "_", "&", "\\\\", "'", "~", "#", "@",
    "*", ";", "\"", "/", ",", "|", ".", "%c\n", "\n", "\n\n", " ", "  ", "\t", "\r\n", "\\", "\\ ", "\\\n", "<", ">",
    "=", "-", "+", ":", "!", "?", "`", "{}", "[]", "()", "\u{a0}", "\u{3000}", "\u{b}", "\u{c}", "\u{85}", "\u{2028}",
];
pub const WORDS: &[&str] = &[
    "a", "b", "xy", "x", "1", "23", "0.5", "Abc", "é", "中文", "😀", "ﬁ", "e\u{301}", "\u{200d}", "\u{feff}", "α",
    "l", "c", "r", "lcr", "|l|c|", "0", "9", "10",
];
pub const NAMES: &[&str] = &[
    "matrix", "pmatrix", "cases", "aligned", "equation", "align*", "itemize", "enumerate", "figure", "table", "tabular",
    "quote", "array", "split", "rcases", "subarray", "smallmatrix", "f", "foo", "", "equation*", "alignedat", "abstract",
];
pub const CMDS: &[&str] = &[
    "alpha", "frac", "sqrt", "over", "choose", "limits", "displaystyle", "bf", "left", "right", "text", "textbf",
    "item", "label", "caption", "includegraphics", "color", "textcolor", "colorbox", "substack", "hline", "toprule",
    "middle", "binom", "overline", "hat", "section", "cite", "ref", "footnote", "unknowncmd", "sum", "operatorname",
    "operatorname*", "newcommand", "renewcommand", "providecommand", "newcommand*", "DeclareRobustCommand",
    "newenvironment", "renewenvironment", "iftrue", "iffalse", "iftypst", "ifx", "else", "fi", "mitexrecurse", "begin",
    "end", "AtEndOfClass", "DeclareTextCommand", "centering", "quad", "!", ",", ";", "{", "}", "$", "%", "_", "#", "&",
    "|", "*", "^", "foo", "bar", "f", "textit", "emph", "stackrel", "overset", "big", "not", "vec", "tag", "eqref",
    "raisebox", "hspace", "brack", "atop", "brace", "tt", "textwidth", "@ifstar", "if", "sqrt*", "é",
];

fn frag(r: &mut Rng, out: &mut String) {
    match r.below(20) {
        0..=5 => out.push_str(r.pick(STRUCT)),
        6..=8 => out.push_str(r.pick(WORDS)),
        9..=12 => {
            out.push('\\');
            out.push_str(r.pick(CMDS));
            if r.chance(1, 3) {
                out.push(' ');
            }
        }
        13 => {
            out.push_str("\\begin{");
            out.push_str(r.pick(NAMES));
            out.push('}');
        }
        14 => {
            out.push_str("\\end{");
            out.push_str(r.pick(NAMES));
            out.push('}');
        }
        15 => {
            // short macro definition
            let d = *r.pick(&["newcommand", "renewcommand", "providecommand", "newcommand*", "DeclareRobustCommand"]);
            out.push_str(&format!("\\{}{{\\{}}}", d, r.pick(&["f", "foo", "bar", "alpha", "é", "f*"])));
            if r.chance(1, 2) {
                out.push_str(&format!("[{}]", r.pick(&["0", "1", "2", "3", "9", "10", "x", ""])));
                if r.chance(1, 3) {
                    out.push_str("[d]");
                }
            }
            out.push('{');
            for _ in 0..r.below(4) {
                match r.below(4) {
                    0 => out.push_str(&format!("#{}", r.below(5))),
                    1 => out.push_str(r.pick(WORDS)),
                    2 => out.push_str(r.pick(STRUCT)),
                    _ => {
                        out.push('\\');
                        out.push_str(r.pick(CMDS))
                    }
                }
            }
            out.push('}');
        }
        16 => {
            let n = *r.pick(NAMES);
            out.push_str(&format!("\\newenvironment{{{}}}[{}]{{", n, r.below(3)));
            for _ in 0..r.below(3) {
                frag_simple(r, out);
            }
            out.push_str("}{");
            for _ in 0..r.below(3) {
                frag_simple(r, out);
            }
            out.push('}');
        }
        17 => {
            // complete environment
            let n = *r.pick(NAMES);
            out.push_str(&format!("\\begin{{{}}}", n));
            if r.chance(1, 3) {
                out.push_str(*r.pick(&["{lc|}", "[b]", "{2}", "c", "{", "{é}", "é"]));
            }
            for _ in 0..r.below(6) {
                frag_simple(r, out);
            }
            out.push_str(&format!("\\end{{{}}}", n));
        }
        18 => {
            out.push_str("\\left");
            out.push_str(r.pick(&["(", "[", "\\{", ".", "|", "\\lbrace", "ab", "", "{", "$", "\\begin", "é"]));
            for _ in 0..r.below(4) {
                frag_simple(r, out);
            }
            out.push_str("\\right");
            out.push_str(r.pick(&[")", "]", "\\}", ".", "|", "\\rbrace", "", "}", "é"]));
        }
        _ => {
            let c = char::from_u32(match r.below(4) {
                0 => r.below(128) as u32,
                1 => 128 + r.below(1000) as u32,
                2 => 0x2000 + r.below(0x100) as u32,
                _ => r.below(0x11_0000) as u32,
            })
            .unwrap_or('?');
            out.push(c);
        }
    }
}

fn frag_simple(r: &mut Rng, out: &mut String) {
    match r.below(4) {
        0 => out.push_str(r.pick(STRUCT)),
        1 => out.push_str(r.pick(WORDS)),
        _ => {
            out.push('\\');
            out.push_str(r.pick(CMDS));
            if r.chance(1, 2) {
                out.push(' ');
            }
        }
    }
}

pub fn token_soup(r: &mut Rng, max: usize) -> String {
    let mut s = String::new();
    let n = 1 + r.below(max);
    for _ in 0..n {
        frag(r, &mut s);
    }
    s
}

/// mutate a corpus seed at char granularity
pub fn mutate(r: &mut Rng, base: &str) -> String {
    let mut cs: Vec<char> = base.chars().collect();
    for _ in 0..1 + r.below(4) {
        let n = cs.len();
        match r.below(6) {
            0 if n > 0 => {
                cs.remove(r.below(n));
            }
            1 => {
                let mut f = String::new();
                frag(r, &mut f);
                let p = r.below(n + 1);
                let tail = cs.split_off(p);
                cs.extend(f.chars());
                cs.extend(tail);
            }
            2 if n > 1 => {
                let a = r.below(n);
                let b = a + r.below((n - a).min(12)) + 1;
                let b = b.min(n);
                let seg: Vec<char> = cs[a..b].to_vec();
                let p = r.below(n + 1);
                let tail = cs.split_off(p);
                cs.extend(seg);
                cs.extend(tail);
            }
            3 if n > 1 => {
                let a = r.below(n);
                let b = (a + r.below(12) + 1).min(n);
                cs.drain(a..b);
            }
            4 if n > 1 => {
                let a = r.below(n);
                let b = r.below(n);
                cs.swap(a, b);
            }
            _ if n > 0 => {
                cs.truncate(r.below(n) + 1);
            }
            _ => {}
        }
    }
    cs.into_iter().collect()
}

pub fn hostile(r: &mut Rng) -> String {
    let c = corpus();
    match r.below(10) {
        0..=4 => token_soup(r, 14),
        5 => token_soup(r, 80),
        6..=8 => {
            let b = *r.pick(&c);
            mutate(r, b)
        }
        _ => {
            let a = *r.pick(&c);
            let b = *r.pick(&c);
            let mut s = a.to_string();
            if r.chance(1, 2) {
                s.push(' ');
            }
            s.push_str(b);
            mutate(r, &s)
        }
    }
}

/// a short unit repeated many times: deep nesting and long flat runs
pub fn repeated(r: &mut Rng, max: usize) -> String {
    let unit = match r.below(3) {
        0 => token_soup(r, 1),
        1 => token_soup(r, 3),
        _ => {
            let c = corpus();
            r.pick(&c).to_string()
        }
    };
    let mut s = String::new();
    if r.chance(1, 3) {
        s.push_str(&token_soup(r, 3));
    }
    let n = 1 + r.below(max) / (1 + unit.len() / 8);
    for _ in 0..n {
        s.push_str(&unit);
    }
    if r.chance(1, 3) {
        s.push_str(&token_soup(r, 3));
    }
    s
}
