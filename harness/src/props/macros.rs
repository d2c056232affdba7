//! Macros (C08, C09) and conditionals (C11): programs against a reference expander.
//!
//! A program is a list of tokens; the reference expander rewrites it into a list without
//! definitions, uses and conditionals. Both are printed and converted.
use crate::cx::*;
use crate::rng::Rng;
use crate::{soup, tree};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
enum K {
    /// a sign that is one token
    Ch(String),
    Open,
    Close,
    Ctl(String),
    Sp(String),
    Par(u8),
    Begin(String),
    End(String),
    /// text that is never converted, or copied
    Raw(String),
}
use K::*;

fn ch(s: &str) -> K {
    Ch(s.into())
}
fn ctl(s: &str) -> K {
    Ctl(s.into())
}

fn print(v: &[K]) -> String {
    let mut s = String::new();
    for (i, t) in v.iter().enumerate() {
        match t {
            Ch(x) | Sp(x) | Raw(x) => s.push_str(x),
            Open => s.push('{'),
            Close => s.push('}'),
            Par(n) => s.push_str(&format!("#{n}")),
            Begin(n) => s.push_str(&format!("\\begin{{{n}}}")),
            End(n) => s.push_str(&format!("\\end{{{n}}}")),
            Ctl(n) => {
                s.push('\\');
                s.push_str(n);
                let glue = |c: char| c.is_alphabetic() || c == '@' || c == '*' || c == ':';
                if n.ends_with(glue) {
                    if let Some(Ch(x) | Raw(x)) = v.get(i + 1) {
                        if x.starts_with(glue) {
                            s.push(' ');
                        }
                    }
                }
            }
        }
    }
    s
}

// ------------------------------------------------------------------ reference expander

#[derive(Clone, Debug)]
struct M {
    env: bool,
    n: usize,
    /// the first argument, unless it is given in brackets
    opt: Option<Vec<K>>,
    body: Vec<K>,
    end: Vec<K>,
}

struct Ex {
    m: HashMap<String, M>,
    /// what is still to be read, last token first
    inp: Vec<K>,
    out: Vec<K>,
    ifs: usize,
    steps: usize,
    uses: u64,
    depth: usize,
}

type R<T> = Result<T, String>;
/// a definition whose parts became arguments of something else: nothing is claimed
const ODD: &str = "endless or malformed";

impl Ex {
    fn trivia(&mut self) {
        while matches!(self.inp.last(), Some(Sp(_))) {
            self.inp.pop();
        }
    }
    fn must(&mut self, t: Option<K>) -> R<()> {
        if self.inp.pop() == t {
            Ok(())
        } else {
            Err(ODD.into())
        }
    }
    fn group(&mut self) -> R<Vec<K>> {
        let mut d = 0;
        let mut v = vec![];
        loop {
            match self.inp.pop().ok_or("end of input in a group")? {
                Close if d == 0 => return Ok(v),
                t => {
                    d += (t == Open) as i32 - (t == Close) as i32;
                    v.push(t);
                }
            }
        }
    }
    /// what is in brackets, in this group
    fn bracketed(&mut self) -> R<Vec<K>> {
        let mut d = 0;
        let mut v = vec![];
        loop {
            match self.inp.pop().ok_or("end of input in brackets")? {
                Close if d == 0 => return Err("brackets not closed".into()),
                t if d == 0 && t == ch("]") => return Ok(v),
                t => {
                    d += (t == Open) as i32 - (t == Close) as i32;
                    v.push(t);
                }
            }
        }
    }
    fn args(&mut self, n: usize, opt: &Option<Vec<K>>) -> R<Vec<Vec<K>>> {
        let mut a = vec![];
        if let (Some(opt), true) = (opt, n > 0) {
            let at = self.inp.iter().rev().take_while(|t| matches!(t, Sp(_))).count();
            if self.inp.iter().rev().nth(at) == Some(&ch("[")) {
                self.trivia();
                self.inp.pop();
                a.push(self.bracketed()?);
            } else {
                a.push(opt.clone());
            }
        }
        for _ in a.len()..n {
            self.trivia();
            match self.inp.last() {
                None | Some(Close | End(_)) => return Err("too few arguments".into()),
                _ => {}
            }
            match self.inp.pop().unwrap() {
                Open => a.push(self.group()?),
                t => a.push(vec![t]),
            }
        }
        Ok(a)
    }
    fn fill(body: &[K], a: &[Vec<K>]) -> Vec<K> {
        let mut v = vec![];
        for t in body {
            match t {
                Par(i) => v.extend(a[*i as usize - 1].iter().cloned()),
                t => v.push(t.clone()),
            }
        }
        v
    }
    fn push(&mut self, v: Vec<K>) -> R<()> {
        self.steps += v.len().max(1);
        self.uses += 1;
        if self.steps > 20_000 {
            return Err("endless expansion".into());
        }
        self.inp.extend(v.into_iter().rev());
        Ok(())
    }
    fn define(&mut self, how: &str) -> R<()> {
        let how = how.trim_end_matches('*');
        let env = how.ends_with("environment");
        self.trivia();
        self.must(Some(Open))?;
        self.trivia();
        let mut name = String::new();
        loop {
            match self.inp.pop().ok_or(ODD)? {
                Ctl(n) | Ch(n) => name.push_str(&n),
                Sp(_) => {}
                Close => break,
                _ => return Err(ODD.into()),
            }
        }
        self.trivia();
        let mut n = 0;
        if self.inp.last() == Some(&ch("[")) {
            self.inp.pop();
            self.trivia();
            let Some(Ch(d)) = self.inp.pop() else { return Err(ODD.into()) };
            n = d.parse().map_err(|_| ODD.to_string())?;
            self.trivia();
            self.must(Some(ch("]")))?;
            self.trivia();
        }
        let mut opt = None;
        if self.inp.last() == Some(&ch("[")) {
            self.inp.pop();
            opt = Some(self.bracketed()?);
            self.trivia();
        }
        self.must(Some(Open))?;
        let body = self.group()?;
        let mut end = vec![];
        if env {
            self.trivia();
            self.must(Some(Open))?;
            end = self.group()?;
        }
        let m = M { env, n, opt, body, end };
        let there = self.m.contains_key(&name);
        match how {
            "newcommand" | "DeclareRobustCommand" | "newenvironment" if there => return Err(format!("{name} is defined already")),
            "renewcommand" if !there && crate::latex::spec().get_cmd(&name).is_none() => return Err(format!("{name} is not defined")),
            "renewenvironment" if !there && crate::latex::spec().get_env(&name).is_none() => return Err(format!("{name} is not defined")),
            "providecommand" if there => {}
            _ => {
                self.m.insert(name, m);
            }
        }
        Ok(())
    }
    /// to the \else or \fi of this conditional
    fn skip(&mut self) -> R<String> {
        let mut d = 0;
        loop {
            match self.inp.pop().ok_or("unterminated")? {
                Ctl(n) if n.starts_with("if") => d += 1,
                Ctl(n) if n == "fi" && d > 0 => d -= 1,
                Ctl(n) if (n == "fi" || n == "else") && d == 0 => return Ok(n),
                _ => {}
            }
        }
    }
    fn run(&mut self) -> R<()> {
        while let Some(t) = self.inp.pop() {
            match &t {
                Ctl(n) if n.contains("newcommand") || n.contains("newenvironment") || n.starts_with("providecommand") || n.starts_with("DeclareRobust") => self.define(n)?,
                Ctl(n) if n == "iftrue" => self.ifs += 1,
                Ctl(n) if n == "iffalse" => {
                    if self.skip()? == "else" {
                        self.ifs += 1;
                    }
                }
                Ctl(n) if n == "iftypst" => {
                    self.out.push(t);
                    loop {
                        match self.inp.pop().ok_or("unterminated")? {
                            Ctl(n) if n == "else" => {
                                if self.skip()? != "fi" {
                                    return Err(ODD.into());
                                }
                                break;
                            }
                            Ctl(n) if n == "fi" => break,
                            t => self.out.push(t),
                        }
                    }
                    self.out.push(ctl("fi"));
                }
                Ctl(n) if n == "else" => {
                    if self.ifs == 0 {
                        return Err("stray else".into());
                    }
                    self.ifs -= 1;
                    self.skip()?;
                }
                Ctl(n) if n == "fi" => {
                    if self.ifs == 0 {
                        return Err("stray fi".into());
                    }
                    self.ifs -= 1;
                }
                Ctl(n) => match self.m.get(n).cloned() {
                    Some(m) if !m.env => {
                        let a = self.args(m.n, &m.opt)?;
                        self.push(Self::fill(&m.body, &a))?;
                    }
                    _ => self.out.push(t),
                },
                Begin(n) => match self.m.get(n).cloned() {
                    Some(m) if m.env => {
                        let a = self.args(m.n, &m.opt)?;
                        let mut d = 0;
                        let mut body = vec![];
                        loop {
                            match self.inp.pop().ok_or("unclosed environment")? {
                                End(e) if d == 0 => {
                                    if e != *n {
                                        return Err("unmatched environment".into());
                                    }
                                    break;
                                }
                                t => {
                                    d += matches!(t, Begin(_)) as i32 - matches!(t, End(_)) as i32;
                                    body.push(t);
                                }
                            }
                        }
                        let mut v = Self::fill(&m.body, &a);
                        v.extend(body);
                        v.extend(Self::fill(&m.end, &a));
                        self.push(v)?;
                    }
                    _ => self.out.push(t),
                },
                _ => self.out.push(t),
            }
            self.depth = self.depth.max(self.inp.len());
        }
        if self.ifs > 0 {
            return Err("unterminated".into());
        }
        Ok(())
    }
}

fn expand(v: &[K]) -> (Result<Vec<K>, String>, u64) {
    let mut e = Ex { m: HashMap::new(), inp: v.iter().rev().cloned().collect(), out: vec![], ifs: 0, steps: 0, uses: 0, depth: 0 };
    let r = e.run();
    (r.map(|_| e.out), e.uses)
}

// ------------------------------------------------------------------ programs

#[derive(Clone)]
struct Known {
    name: String,
    n: usize,
    /// expands to its parts of a pair: the name of the closing half
    pair: Option<String>,
    env: bool,
    /// the first argument may be left out, or is given in brackets
    opt: bool,
}

struct G<'a> {
    r: &'a mut Rng,
    math: bool,
    known: Vec<Known>,
    conds: bool,
    macros: bool,
    fresh: usize,
    budget: i32,
    /// the text is not read as an argument or as a body before it is skipped
    wild: bool,
    /// no argument may be missing after all
    strict: bool,
    /// the default of the next definition with arguments
    opt: Option<Vec<K>>,
}

const SYMS: &[&str] = &["alpha", "beta", "infty", "cdot", "sum", "int", "leq", "pm", "to", "in", "lim", "sin", "ldots", "partial", "R", "mu"];
const OPS: &[&str] = &["+", "-", "=", "<", "(", ")", "|", "!", ".", "/", ":"];

impl G<'_> {
    fn letter(&mut self) -> K {
        ch(self.r.pick(&["a", "b", "x", "y", "z", "k", "m", "é"]))
    }
    fn alnum(&mut self) -> K {
        if self.math && self.r.chance(1, 3) {
            ch(self.r.pick(&["0", "1", "2", "7"]))
        } else {
            self.letter()
        }
    }
    /// layout that is dropped
    fn lay(&mut self, v: &mut Vec<K>) {
        if self.r.chance(1, 5) {
            v.push(Sp(self.r.pick(&[" ", "\n", "%c\n", "  ", " % {x}\n "]).to_string()));
        }
    }
    fn group(&mut self, depth: usize, par: usize, v: &mut Vec<K>) {
        v.push(Open);
        let n = self.r.below(4);
        self.items(n, depth, par, v);
        v.push(Close);
    }
    /// an argument of a macro
    fn arg(&mut self, depth: usize, par: usize, v: &mut Vec<K>) {
        self.lay(v);
        match self.r.below(if self.math { 6 } else { 3 }) {
            0..=2 => self.group(depth, par, v),
            3 if par > 0 && !self.strict => {
                let p = Par(1 + self.r.below(par) as u8);
                v.push(p);
            }
            3 | 4 => {
                let c = self.alnum();
                v.push(c);
            }
            _ => {
                let zero: Vec<String> = self.known.iter().filter(|k| !k.env && k.n == 0 && k.pair.is_none()).map(|k| k.name.clone()).collect();
                if !zero.is_empty() && self.r.chance(1, 2) {
                    v.push(ctl(&self.r.pick(&zero).clone()));
                } else {
                    v.push(ctl(self.r.pick(SYMS)));
                }
            }
        }
    }
    /// an argument in brackets
    fn bracket(&mut self, opt: bool, depth: usize, par: usize, v: &mut Vec<K>) {
        if opt && self.r.chance(1, 2) {
            self.lay(v);
            v.push(ch("["));
            self.in_brackets(depth, par, v);
            v.push(ch("]"));
        }
    }
    fn in_brackets(&mut self, depth: usize, par: usize, v: &mut Vec<K>) {
        let mut w = vec![];
        let n = self.r.below(4);
        let c = std::mem::replace(&mut self.conds, false);
        self.items(n, depth, par, &mut w);
        self.conds = c;
        if self.r.chance(1, 8) {
            w.extend([Open, ch("a"), ch("]"), ch("b"), Close]);
        }
        if w.contains(&ch("]")) || w.iter().any(|t| matches!(t, Par(_))) {
            w.insert(0, Open);
            w.push(Close);
        }
        v.extend(w);
    }
    /// perhaps, a macro has an optional argument
    fn optional(&mut self, n: usize) -> bool {
        if n == 0 || !self.r.chance(1, 4) {
            return false;
        }
        let mut w = vec![];
        let (c, m) = (std::mem::replace(&mut self.conds, false), std::mem::replace(&mut self.macros, false));
        self.in_brackets(1, 0, &mut w);
        (self.conds, self.macros) = (c, m);
        self.opt = Some(w);
        true
    }
    /// the default in a definition
    fn default(&mut self, n: usize, v: &mut Vec<K>) {
        if n > 0 {
            if let Some(w) = self.opt.take() {
                v.push(ch("["));
                v.extend(w);
                v.push(ch("]"));
                self.lay(v);
            }
        }
    }
    /// what may follow a control word in a text
    fn after(&mut self, v: &mut Vec<K>) {
        if !self.math {
            match self.r.below(3) {
                0 => v.push(Sp(" ".into())),
                1 => v.extend([Open, Close]),
                _ => v.push(ch(self.r.pick(&[",", ".", "!", "?"]))),
            }
        }
    }
    fn words(&mut self, v: &mut Vec<K>) {
        for _ in 0..1 + self.r.below(3) {
            let c = self.letter();
            v.push(c);
        }
    }
    fn used(&mut self, depth: usize, par: usize, v: &mut Vec<K>) {
        if self.known.is_empty() {
            return;
        }
        let i = self.r.below(self.known.len());
        let k = self.known[i].clone();
        if k.env {
            v.push(Begin(k.name.clone()));
            self.bracket(k.opt, depth, par, v);
            for _ in k.opt as usize..k.n {
                self.lay(v);
                self.group(depth, par, v);
            }
            let n = self.r.below(4);
            self.items(n, depth, par, v);
            v.push(End(k.name));
        } else if let Some(b) = k.pair {
            v.push(ctl(&k.name));
            self.after(v);
            let n = self.r.below(3);
            self.items(n, depth, par, v);
            v.push(ctl(&b));
            self.after(v);
        } else {
            v.push(ctl(&k.name));
            self.bracket(k.opt, depth, par, v);
            for _ in k.opt as usize..k.n {
                self.arg(depth, par, v);
            }
            if k.n == k.opt as usize {
                self.after(v);
            }
        }
    }
    fn items(&mut self, n: usize, depth: usize, par: usize, v: &mut Vec<K>) {
        for _ in 0..n {
            self.item(depth, par, v);
        }
    }
    fn item(&mut self, depth: usize, par: usize, v: &mut Vec<K>) {
        self.budget -= 1;
        let d = depth.saturating_sub(1);
        let deep = depth > 0 && self.budget > 0;
        if par > 0 && self.r.chance(1, 3) {
            let p = Par(1 + self.r.below(par) as u8);
            v.push(p);
            return;
        }
        if deep && self.macros && self.r.chance(1, 3) {
            return self.used(d, par, v);
        }
        if deep && self.conds && self.r.chance(1, 4) {
            return self.cond(d, par, v);
        }
        if !self.math {
            return self.text_item(d, deep, par, v);
        }
        match self.r.below(if deep { 15 } else { 7 }) {
            0..=2 => {
                let c = self.alnum();
                v.push(c);
            }
            3 => v.push(ch(self.r.pick(OPS))),
            4 => v.push(ctl(self.r.pick(SYMS))),
            5 => self.lay(v),
            6 => v.push(ch(self.r.pick(&["\\,", "\\{", "\\}", "\\%", "'", "~", "\\;"]))),
            7 => self.group(d, par, v),
            8 | 9 => {
                v.push(ch(self.r.pick(&["_", "^"])));
                self.lay(v);
                if self.r.chance(1, 2) {
                    self.group(d, par, v);
                } else {
                    self.item(0, par, v);
                }
            }
            10 => {
                let (c, n) = *self.r.pick(&[("frac", 2), ("binom", 2), ("hat", 1), ("overline", 1), ("mathbf", 1), ("overset", 2), ("sqrt", 1)]);
                v.push(ctl(c));
                if c == "sqrt" && self.r.chance(1, 2) {
                    v.push(ch("["));
                    self.items(1, 0, par, v);
                    v.push(ch("]"));
                }
                for _ in 0..n {
                    self.lay(v);
                    if self.r.chance(2, 3) {
                        self.group(d, par, v);
                    } else {
                        let c = self.alnum();
                        v.push(c);
                    }
                }
            }
            11 => {
                v.push(ctl("left"));
                v.push(ch(self.r.pick(&["(", "[", "|", "."])));
                let n = self.r.below(4);
                self.items(n, d, par, v);
                v.push(ctl("right"));
                v.push(ch(self.r.pick(&[")", "]", "|", "."])));
            }
            12 => {
                let e = *self.r.pick(&["matrix", "pmatrix", "cases", "aligned"]);
                v.push(Begin(e.into()));
                for i in 0..1 + self.r.below(4) {
                    if i > 0 {
                        v.push(ch(self.r.pick(&["&", "\\\\"])));
                        v.push(Sp(" ".into()));
                    }
                    let n = self.r.below(3);
                    self.items(n, d, par, v);
                }
                v.push(End(e.into()));
            }
            13 => v.push(ctl(self.r.pick(&["displaystyle", "bf", "over", "choose", "rm"]))),
            // (a parameter could take the command without its argument)
            _ if !self.strict => {}
            _ => {
                v.push(ctl(self.r.pick(&["text", "textbf", "mbox"])));
                v.push(Open);
                self.words(v);
                v.push(Close);
            }
        }
    }
    fn text_item(&mut self, d: usize, deep: bool, par: usize, v: &mut Vec<K>) {
        match self.r.below(if deep { 11 } else { 6 }) {
            0..=2 => self.words(v),
            3 => v.push(ch(self.r.pick(&[",", ".", "!", "?", "\\%", "\\$", "\\_"]))),
            4 | 5 => {
                self.words(v);
                v.push(Sp(" ".into()));
            }
            6 => self.group(d, par, v),
            7 | 8 => {
                v.push(ctl(self.r.pick(&["emph", "textbf", "textit", "section", "texttt", "footnote"])));
                self.group(d, par, v);
            }
            9 => {
                let (a, b) = *self.r.pick(&[("$", "$"), ("\\(", "\\)"), ("\\[", "\\]")]);
                v.push(ch(a));
                self.math = true;
                let c = self.alnum();
                v.push(c);
                let n = self.r.below(4);
                let (k, co) = (std::mem::take(&mut self.known), self.conds);
                self.conds = false;
                // parameters of a text hold text
                self.items(n, d, 0, v);
                self.known = k;
                self.conds = co;
                self.math = false;
                v.push(ch(b));
            }
            _ => {
                v.push(Begin("itemize".into()));
                for _ in 0..1 + self.r.below(2) {
                    v.push(ctl("item"));
                    v.push(Sp(" ".into()));
                    let n = 1 + self.r.below(2);
                    self.items(n, d, par, v);
                    v.push(Sp(" ".into()));
                }
                v.push(End("itemize".into()));
            }
        }
    }
    /// text that is skipped: anything but the words of conditionals
    fn junk(&mut self) -> Vec<K> {
        let mut v = vec![];
        for _ in 0..self.r.below(4) {
            match self.r.below(8) {
                0 if self.wild => v.extend([Open, Open, Close, Close, Close]),
                1 => {
                    let n = self.fresh_name();
                    self.definition("newcommand", &n, 0, vec![ch("q")], &mut v);
                }
                2 if !self.known.is_empty() => {
                    // the definition of a macro that is there
                    let k = self.r.pick(&self.known).clone();
                    if !k.env {
                        self.definition("renewcommand", &k.name, 0, vec![ch("q")], &mut v);
                    } else if self.wild {
                        v.push(Begin(k.name));
                    }
                }
                3 if !self.known.is_empty() => {
                    let k = self.r.pick(&self.known).clone();
                    v.push(ctl(&k.name));
                }
                4 => {
                    let how = *self.r.pick(&["iftrue", "iffalse", "iftypst", "ifx"]);
                    v.push(ctl(how));
                    v.extend(self.junk());
                    if self.r.chance(1, 2) {
                        v.push(ctl("else"));
                        v.extend(self.junk());
                    }
                    v.push(ctl("fi"));
                }
                5 => v.push(Sp(self.r.pick(&["%\\fi\n", "% \\else\n", " ", "\n\n"]).to_string())),
                6 if self.wild => v.push(End("matrix".into())),
                _ => {
                    let s: String = (0..1 + self.r.below(3)).map(|_| *self.r.pick(soup::STRUCT)).filter(|s| !s.starts_with('%') && *s != "\\" && (self.wild || !s.contains(['{', '}']))).collect();
                    let s = if s.ends_with('\\') { format!("{s} ") } else { s };
                    let s = if s.starts_with("*") { format!(" {s}") } else { s };
                    v.push(Raw(s));
                    v.push(Sp(" ".into()));
                }
            }
        }
        v
    }
    fn cond(&mut self, depth: usize, par: usize, v: &mut Vec<K>) {
        let taken = self.r.chance(1, 2);
        if self.r.chance(1, 6) {
            v.push(ctl("iftypst"));
            v.push(Raw(self.r.pick(&[" #x ", "#f(1)[a] ", " a + b ", " {} ", "#z ", "\n#let x = $a_b$\n"]).to_string()));
            if self.r.chance(1, 2) {
                v.push(ctl("else"));
                let j = self.junk();
                v.extend(j);
            }
            v.push(ctl("fi"));
            return self.end_cond(v);
        }
        v.push(ctl(if taken { "iftrue" } else { "iffalse" }));
        for b in [true, false] {
            if !b {
                if self.r.chance(1, 3) {
                    break;
                }
                v.push(ctl("else"));
            }
            if b == taken {
                self.after(v);
                let n = self.r.below(4);
                self.items(n, depth, par, v);
            } else {
                let j = self.junk();
                v.extend(j);
            }
        }
        v.push(ctl("fi"));
        self.end_cond(v)
    }
    fn end_cond(&mut self, v: &mut Vec<K>) {
        self.after(v);
    }
    fn fresh_name(&mut self) -> String {
        self.fresh += 1;
        let mut n = self.fresh;
        let mut s = String::from(*self.r.pick(&["q", "my", "Z"]));
        while n > 0 {
            s.push((b'a' + (n % 26) as u8) as char);
            n /= 26;
        }
        s
    }
    fn definition(&mut self, how: &str, name: &str, n: usize, body: Vec<K>, v: &mut Vec<K>) {
        let star = if self.r.chance(1, 5) { "*" } else { "" };
        v.push(Ctl(format!("{how}{star}")));
        self.lay(v);
        v.push(Open);
        self.lay(v);
        v.push(ctl(name));
        self.lay(v);
        v.push(Close);
        self.lay(v);
        if n > 0 || self.r.chance(1, 6) {
            v.push(ch("["));
            self.lay(v);
            v.push(Ch(n.to_string()));
            self.lay(v);
            v.push(ch("]"));
            self.lay(v);
        }
        self.default(n, v);
        v.push(Open);
        v.extend(body);
        v.push(Close);
    }
    fn env_definition(&mut self, how: &str, name: &str, n: usize, a: Vec<K>, b: Vec<K>, v: &mut Vec<K>) {
        let star = if self.r.chance(1, 5) { "*" } else { "" };
        v.push(Ctl(format!("{how}{star}")));
        self.lay(v);
        v.extend([Open, ch(name), Close]);
        self.lay(v);
        if n > 0 {
            v.extend([ch("["), Ch(n.to_string()), ch("]")]);
            self.lay(v);
        }
        self.default(n, v);
        v.push(Open);
        v.extend(a);
        v.push(Close);
        self.lay(v);
        v.push(Open);
        v.extend(b);
        v.push(Close);
    }
    fn body(&mut self, n: usize) -> Vec<K> {
        let mut v = vec![];
        let k = self.r.below(6);
        let c = std::mem::replace(&mut self.conds, false);
        self.items(k, 2, n, &mut v);
        self.conds = c;
        v
    }
    fn nargs(&mut self) -> usize {
        match self.r.below(8) {
            0..=2 => 0,
            3 | 4 => 1,
            5 => 2,
            6 => 3,
            _ => 1 + self.r.below(9),
        }
    }
    /// a new macro, with its definition
    fn macro_def(&mut self, v: &mut Vec<K>) {
        let name = self.fresh_name();
        let how = *self.r.pick(&["newcommand", "newcommand", "providecommand", "DeclareRobustCommand"]);
        match self.r.below(10) {
            0 => {
                // two halves
                let other = self.fresh_name();
                let (a, b): (Vec<K>, Vec<K>) = if self.math {
                    match self.r.below(4) {
                        0 => (vec![ctl("left"), ch("(")], vec![ctl("right"), ch(")")]),
                        1 => (vec![Begin("matrix".into())], vec![End("matrix".into())]),
                        2 => (vec![ctl("frac"), Open, ch("u"), Close], vec![]),
                        _ => (vec![Begin("aligned".into()), ch("a"), ch("&")], vec![ch("b"), End("aligned".into())]),
                    }
                } else {
                    match self.r.below(3) {
                        0 => (vec![ch("$"), ch("w")], vec![ch("$")]),
                        1 => (vec![ch("\\["), ch("w")], vec![ch("\\]")]),
                        _ => (vec![Begin("itemize".into()), ctl("item"), Sp(" ".into())], vec![Sp(" ".into()), End("itemize".into())]),
                    }
                };
                self.definition("newcommand", &name, 0, a, v);
                self.definition("newcommand", &other, 0, b, v);
                self.known.push(Known { name, n: 0, pair: Some(other), env: false, opt: false });
            }
            1 | 2 => {
                let n = self.r.below(3);
                let (mut a, mut b) = (self.body(n), self.body(n));
                if self.math && self.r.chance(1, 2) {
                    let e = *self.r.pick(&["matrix", "cases"]);
                    a.push(Begin(e.into()));
                    b.insert(0, End(e.into()));
                }
                if !self.math {
                    a.push(Sp(" ".into()));
                    b.insert(0, Sp(" ".into()));
                }
                let opt = self.optional(n);
                self.env_definition("newenvironment", &name, n, a, b, v);
                self.known.push(Known { name, n, pair: None, env: true, opt });
            }
            3 if !self.known.is_empty() => {
                // definitions within a macro
                let inner = self.fresh_name();
                let n = self.r.below(3);
                let b = self.body(n);
                let mut w = vec![];
                self.definition("newcommand", &inner, 0, b, &mut w);
                self.definition(how, &name, n, w, v);
                v.push(ctl(&name));
                for _ in 0..n {
                    self.arg(1, 0, v);
                }
                if n == 0 {
                    v.extend([Open, Close]);
                }
                self.known.push(Known { name: inner, n: 0, pair: None, env: false, opt: false });
            }
            _ => {
                let n = self.nargs();
                let b = self.body(n);
                let opt = self.optional(n);
                self.definition(how, &name, n, b, v);
                self.known.push(Known { name, n, pair: None, env: false, opt });
            }
        }
    }
    /// much text before, so that the tokens that matter stand anywhere in the buffers
    fn padding(&mut self, v: &mut Vec<K>) {
        if self.r.chance(1, 4) {
            let n = self.r.below(400);
            for i in 0..n {
                let c = self.letter();
                v.push(c);
                if i % 7 == 0 {
                    v.push(Sp(" ".into()));
                } else if self.math {
                    v.push(ch("+"));
                }
            }
        }
    }
}

fn clip(s: &str) -> String {
    s.to_string()
}

/// the program and its expansion convert alike
fn same(cx: &mut Cx, m: bool, prog: &[K], want: &R<Vec<K>>) -> bool {
    let s = print(prog);
    cx.about(false, &s);
    let f = |s: &str| if m { math(s) } else { text(s) };
    let a = f(&s);
    cx.eval();
    let flat = match want {
        Err(e) if e == "unterminated" => return true,
        Err(e) => {
            return match a {
                Out::Err(_) => {
                    cx.count("rejected as it should be");
                    true
                }
                o => {
                    cx.fail(format!("accepted: {e}"), format!("math={m} {s:?} => {o:?}\nexpected an error: {e}"));
                    false
                }
            };
        }
        Ok(v) => print(v),
    };
    // signs that became one
    if flat.contains("$$") {
        return true;
    }
    let b = f(&flat);
    match (&a, &b) {
        (Out::Ok(x), Out::Ok(y)) => {
            let tr = |s: &str| if m { tree::math_tree(s) } else { tree::text_tree(s) };
            match (tr(x), tr(y)) {
                (Ok(p), Ok(q)) if p == q => {
                    cx.count("same tree");
                    true
                }
                (Err(_), Err(_)) => {
                    let sq = |s: &str| s.split_whitespace().collect::<String>();
                    if sq(x) != sq(y) {
                        cx.fail("other code than written out", format!("math={m} {s:?} => {x:?}\nwritten out: {flat:?} => {y:?}"));
                        return false;
                    }
                    cx.count("same code, not valid");
                    true
                }
                _ => {
                    cx.fail("other code than written out", format!("math={m} {s:?} => {x:?}\nwritten out: {flat:?} => {y:?}"));
                    false
                }
            }
        }
        (Out::Err(_), Out::Err(_)) => {
            cx.count("both rejected");
            true
        }
        (Out::Panic(p), _) => {
            cx.fail(format!("panic {p}"), s);
            false
        }
        _ => {
            cx.fail("other outcome than written out", format!("math={m} {s:?} => {a:?}\nwritten out: {flat:?} => {b:?}"));
            false
        }
    }
}

fn gen<'a>(r: &'a mut Rng, math: bool) -> G<'a> {
    G { r, math, known: vec![], conds: false, macros: true, fresh: 0, budget: 120, wild: false, strict: false, opt: None }
}

/// C08
pub fn transparent(cx: &mut Cx) {
    let m = cx.rng.chance(2, 3);
    let mut v = vec![];
    {
        let mut g = gen(&mut cx.rng, m);
        g.strict = g.r.chance(1, 2);
        g.padding(&mut v);
        for _ in 0..1 + g.r.below(4) {
            g.macro_def(&mut v);
            if g.r.chance(1, 3) {
                g.items(2, 2, 0, &mut v);
            }
        }
        let n = 1 + g.r.below(8);
        g.items(n, 3, 0, &mut v);
        let k = g.r.below(2);
        for _ in 0..k {
            g.used(2, 0, &mut v);
        }
    }
    let (want, uses) = expand(&v);
    if uses == 0 || want.as_ref().is_err_and(|e| e.starts_with("endless")) {
        return;
    }
    cx.add("macro uses", uses);
    let s = clip(&print(&v));
    if same(cx, m, &v, &want) {
        cx.distinct(&s);
        cx.sample(|| format!("{s} = {}", want.map(|v| print(&v)).unwrap_or_else(|e| e)));
    }
}

/// C09
pub fn discipline(cx: &mut Cx) {
    let m = cx.rng.chance(2, 3);
    let mut v = vec![];
    let what;
    {
        let mut g = gen(&mut cx.rng, m);
        g.strict = true;
        g.padding(&mut v);
        g.macros = false;
        // few names, so that they meet
        let names: Vec<&str> = vec!["f", "g", "h", if m { "alpha" } else { "bar" }, "foo"];
        let envs = ["ea", "eb", "matrix"];
        let mut n: HashMap<String, usize> = HashMap::new();
        let mut opts: std::collections::HashSet<String> = Default::default();
        let steps = 1 + g.r.below(7);
        let bad = g.r.chance(1, 3);
        let mut kind = "well-behaved";
        for step in 0..steps {
            let name = g.r.pick(&names).to_string();
            let there = n.contains_key(&name);
            match g.r.below(10) {
                0..=2 => {
                    let how = match (there, bad) {
                        (_, true) => *g.r.pick(&["newcommand", "renewcommand", "providecommand", "DeclareRobustCommand"]),
                        (true, _) => *g.r.pick(&["renewcommand", "providecommand"]),
                        (false, _) if name == "alpha" => *g.r.pick(&["newcommand", "renewcommand", "DeclareRobustCommand"]),
                        (false, _) => *g.r.pick(&["newcommand", "providecommand", "DeclareRobustCommand"]),
                    };
                    if how == "providecommand" && name == "alpha" && !there {
                        continue;
                    }
                    let k = g.nargs().min(3);
                    let mut b = g.body(k);
                    // through other macros, too
                    if g.r.chance(1, 4) {
                        let zero: Vec<String> = n.iter().filter(|x| *x.1 == 0 && *x.0 < name && !x.0.starts_with("env:")).map(|x| x.0.clone()).collect();
                        let mut zero = zero;
                        zero.sort();
                        if !zero.is_empty() {
                            b.push(ctl(&g.r.pick(&zero).clone()));
                            g.after(&mut b);
                        }
                    }
                    // the definition marks where it comes from
                    b.push(Ch(format!("{}", (b'A' + step as u8) as char)));
                    // or is nothing but another name
                    if k == 0 && g.r.chance(1, 4) {
                        let mut other: Vec<String> = n.iter().filter(|x| *x.0 < name && !x.0.starts_with("env:")).map(|x| x.0.clone()).collect();
                        other.sort();
                        b = match g.r.below(5) {
                            0 => vec![],
                            1 => vec![Ch("z".into())],
                            _ if !other.is_empty() => vec![ctl(&g.r.pick(&other).clone())],
                            _ => b,
                        };
                    }
                    let opt = g.optional(k);
                    g.definition(how, &name, k, b, &mut v);
                    if !(how == "providecommand" && there) {
                        opts.remove(&name);
                        if opt {
                            opts.insert(name.clone());
                        }
                        n.insert(name, k);
                    }
                }
                3 => {
                    let e = g.r.pick(&envs).to_string();
                    let there = n.contains_key(&format!("env:{e}"));
                    let how = if bad {
                        *g.r.pick(&["newenvironment", "renewenvironment"])
                    } else if there || e == "matrix" {
                        "renewenvironment"
                    } else {
                        "newenvironment"
                    };
                    let k = g.r.below(2);
                    let (mut a, b) = (g.body(k), g.body(k));
                    a.push(Ch(format!("{}", (b'A' + step as u8) as char)));
                    g.env_definition(how, &e, k, a, b, &mut v);
                    n.insert(format!("env:{e}"), k);
                }
                4..=7 => {
                    let k = match n.get(&name) {
                        Some(k) => *k,
                        None if name == "alpha" && m || bad => 0,
                        None => continue,
                    };
                    let few = bad && k > 0 && g.r.chance(1, 6);
                    if few {
                        kind = "argument missing";
                        v.push(Open);
                    }
                    v.push(ctl(&name));
                    let opt = opts.contains(&name);
                    g.bracket(opt, 1, 0, &mut v);
                    if bad && opt && g.r.chance(1, 6) {
                        kind = "brackets not closed";
                        v.push(ch("["));
                    }
                    for _ in opt as usize..k - (few && k > opt as usize) as usize {
                        g.arg(1, 0, &mut v);
                    }
                    if few {
                        v.push(Close);
                    } else if k == opt as usize {
                        g.after(&mut v);
                    }
                }
                8 => {
                    let e = g.r.pick(&envs).to_string();
                    let Some(k) = n.get(&format!("env:{e}")).copied() else { continue };
                    v.push(Begin(e.clone()));
                    for _ in 0..k {
                        g.group(1, 0, &mut v);
                    }
                    g.items(2, 1, 0, &mut v);
                    if bad && g.r.chance(1, 2) {
                        kind = "environment not closed";
                    } else {
                        v.push(End(e));
                    }
                }
                _ => g.items(1, 1, 0, &mut v),
            }
        }
        if g.r.chance(1, 500) {
            // endless
            let k = g.r.below(3);
            let n = format!("loop{}", ["a", "b", "c"][k]);
            let b = match k {
                0 => vec![ctl(&n)],
                1 => vec![ch("x"), ctl(&n), ctl(&n)],
                _ => vec![Open, ctl(&n), Close],
            };
            g.definition("newcommand", &n, 0, b, &mut v);
            v.push(ctl(&n));
            kind = "endless";
        } else if bad && g.r.chance(1, 8) {
            // arguments missing at the end
            if let Some((name, k)) = n.iter().filter(|x| *x.1 > 0 && !x.0.starts_with("env:")).min() {
                v.push(ctl(name));
                for _ in opts.contains(name) as usize..k - 1 {
                    g.arg(1, 0, &mut v);
                }
                kind = "argument missing";
            }
        }
        what = kind;
    }
    let (want, uses) = expand(&v);
    if what != "endless" && want.as_ref().is_err_and(|e| e.starts_with("endless")) || want.is_ok() && uses == 0 && !print(&v).contains("command") {
        return;
    }
    cx.count(what);
    cx.add("macro uses", uses);
    let s = clip(&print(&v));
    if same(cx, m, &v, &want) {
        cx.distinct(&s);
        cx.sample(|| format!("{s} = {}", want.map(|v| print(&v)).unwrap_or_else(|e| e)));
    }
}

/// C11
pub fn conditional(cx: &mut Cx) {
    let m = cx.rng.chance(1, 2);
    match cx.rng.below(12) {
        0 => return verbatim(cx, m),
        1 => return stray(cx, m),
        _ => {}
    }
    let mut v = vec![];
    {
        let mut g = gen(&mut cx.rng, m);
        g.strict = true;
        g.padding(&mut v);
        if g.r.chance(1, 2) {
            for _ in 0..1 + g.r.below(2) {
                g.macro_def(&mut v);
            }
        } else {
            g.macros = false;
            g.wild = true;
        }
        g.conds = true;
        // a definition that depends on a condition
        if g.r.chance(1, 3) {
            let n = g.fresh_name();
            let taken = g.r.chance(1, 2);
            v.push(ctl(if taken { "iftrue" } else { "iffalse" }));
            let (x, y) = (ch("t"), ch("u"));
            g.definition("newcommand", &n, 0, vec![x], &mut v);
            v.push(ctl("else"));
            g.definition("newcommand", &n, 0, vec![y], &mut v);
            v.push(ctl("fi"));
            g.known.push(Known { name: n, n: 0, pair: None, env: false, opt: false });
            g.macros = true;
            g.wild = false;
        }
        // a condition in a macro
        if g.r.chance(1, 3) {
            let n = g.fresh_name();
            let mut b = vec![];
            g.wild = false;
            g.cond(2, 1, &mut b);
            g.definition("newcommand", &n, 1, b, &mut v);
            g.known.push(Known { name: n, n: 1, pair: None, env: false, opt: false });
            g.macros = true;
        }
        g.cond(3, 0, &mut v);
        let k = g.r.below(6);
        g.items(k, 3, 0, &mut v);
    }
    let (want, _) = expand(&v);
    if want.as_ref().is_err_and(|e| e.starts_with("endless")) {
        return;
    }
    cx.add("conditionals", v.iter().filter(|t| matches!(t, Ctl(n) if n.starts_with("if"))).count() as u64);
    let s = clip(&print(&v));
    if same(cx, m, &v, &want) {
        cx.distinct(&s);
        cx.sample(|| format!("{s} = {}", want.map(|v| print(&v)).unwrap_or_else(|e| e)));
    }
}

/// Typst code is copied
fn verbatim(cx: &mut Cx, m: bool) {
    let r = &mut cx.rng;
    const BITS: &[&str] = &[
        "#let x = 1", "a", " ", "\n", "\n\n", "  ", "#f(a, b: 1)[*c* _d_]", "$x^2_3$", "\"s\"", "{", "}", "[", "]", "(", ")", "// c\n", "/* d */", "é", "中", "\\ ", "\\#", "\\$", "&", "~", "--", "'", "`raw`", "@ref", "<lab>", "*b*",
        "_", "^", "#", "=", "+ x", "- y", "\t", ";", ",", "/", "100%\n", "\\\\", "#1", "\\alpha", "1.5em", "|", "!", ":",
    ];
    let mut raw = String::from(*r.pick(&[" ", "\n", "#", "{", "1"]));
    for _ in 0..1 + r.below(8) {
        raw.push_str(r.pick(BITS));
    }
    if raw.ends_with('\\') {
        raw.push(' ');
    }
    let alt = *r.pick(&["", "\\else", "\\else ", "\\else b", "\\else \\foo{", "\\else \\iftrue x\\else y\\fi z", "\\else \\newcommand{\\h}{a}"]);
    let alt = if alt == "\\else" { "\\else " } else { alt };
    let (pre, post) = *r.pick(&[("", ""), ("a ", " b"), ("{", "}"), ("\\iftrue{}", "\\else q\\fi "), ("\\newcommand{\\mac}{x}\\mac{}", ""), ("\\iffalse q\\else{}", "\\fi ")]);
    let s = format!("{pre}\\iftypst{raw}{alt}\\fi {post}");
    cx.about(false, &s);
    let o = if m { math(&s) } else { text(&s) };
    cx.eval();
    match &o {
        Out::Ok(o) if o.contains(&raw) && (!o.contains('q') || raw.contains('q')) => {
            if pre.is_empty() && post.is_empty() && o.trim_end_matches(' ') != raw.trim_end_matches(' ') {
                return cx.fail("more than the Typst code", format!("math={m} {s:?} => {o:?}"));
            }
            cx.count("Typst code copied");
            cx.distinct(&s);
            cx.sample(|| format!("{s} => {o}"));
        }
        o => cx.fail("Typst code not copied", format!("math={m} {s:?} => {o:?}")),
    }
}

/// conditionals without a partner, and unknown conditions, are errors
fn stray(cx: &mut Cx, m: bool) {
    let mut v = vec![];
    {
        let mut g = gen(&mut cx.rng, m);
        g.padding(&mut v);
        g.macros = false;
        g.conds = true;
        let n = g.r.below(5);
        g.items(n, 2, 0, &mut v);
        match g.r.below(5) {
            0 => v.push(ctl("else")),
            1 => v.push(ctl("fi")),
            2 => v.extend([Open, ctl("fi"), Close]),
            3 => v.extend([ctl("iftrue"), ch("a"), ctl("fi"), ctl("fi")]),
            _ => {
                let c = *g.r.pick(&["ifx", "if", "ifnum", "ifodd", "ifmmode", "ifcat", "ifdim"]);
                v.extend([ctl(c), ch("a"), ch("b"), ctl("else"), ch("c"), ctl("fi")]);
            }
        }
        g.after(&mut v);
        let n = g.r.below(3);
        g.items(n, 2, 0, &mut v);
    }
    let s = print(&v);
    cx.about(false, &s);
    let o = if m { math(&s) } else { text(&s) };
    cx.eval();
    match o {
        Out::Err(_) => {
            cx.count("stray conditional rejected");
            cx.distinct(&s);
        }
        o => cx.fail("stray conditional accepted", format!("math={m} {s:?} => {o:?}")),
    }
}

/// a program of definitions, uses and conditionals, as text
pub fn any_program(cx: &mut Cx) -> String {
    let m = cx.rng.chance(1, 2);
    let mut v = vec![];
    let mut g = gen(&mut cx.rng, m);
    g.strict = g.r.chance(1, 2);
    if g.r.chance(1, 3) {
        g.conds = true;
    }
    for _ in 0..g.r.below(4) {
        g.macro_def(&mut v);
        let k = g.r.below(3);
        g.items(k, 2, 0, &mut v);
    }
    if g.r.chance(1, 2) {
        g.conds = true;
        g.cond(2, 0, &mut v);
    }
    let n = g.r.below(8);
    g.items(n, 3, 0, &mut v);
    for _ in 0..g.r.below(3) {
        g.used(2, 0, &mut v);
    }
    print(&v)
}
