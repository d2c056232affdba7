//! Structured documents: abstract document, its LaTeX spelling, and the Typst code it stands for.
use crate::latex::{self, Cfg, Env, Tex, M};
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum I {
    W(String),
    Sp,
    Tie,
    /// line break, `\\\\`
    Br,
    /// punctuation that stands for itself
    Mark(char),
    /// escaped character, `\%`
    Esc(char),
    /// text command with one argument
    Cmd(String, Vec<I>),
    G(Vec<I>),
    /// inline formula; style 0: `$..$`, 1: `\(..\)`
    Math(Vec<M>, u8),
    Label(String),
    Color(String, Option<String>, String, Vec<I>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum B {
    Par(Vec<I>),
    Head(usize, Vec<I>),
    /// style 0: `$$..$$`, 1: `\[..\]`
    Display(Vec<M>, u8),
    EnvMath(Env, Option<String>, bool),
    List(bool, Vec<Item>),
    Quote(String, Vec<B>),
    Figure(Fig),
    Tabular(Tab),
}

/// the parts of an item: text and nested lists, in turn
#[derive(Clone, Debug, PartialEq)]
pub struct Item {
    pub parts: Vec<Part>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Part {
    Text(Vec<I>),
    List(bool, Vec<Item>),
    Display(Vec<M>, u8),
    /// an environment
    Block(Box<B>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum FigPart {
    Centering,
    Caption(Vec<I>),
    Label(String),
    Image(Vec<(String, String)>, String),
    Tabular(Tab),
    Eq(Env),
    Text(Vec<I>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Fig {
    pub table: bool,
    pub place: Option<String>,
    pub parts: Vec<FigPart>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Row {
    Cells(Vec<Vec<I>>),
    Rule(String),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Tab {
    pub spec: String,
    pub rows: Vec<Row>,
    pub end: bool,
}

#[derive(Clone, Copy)]
pub struct DCfg {
    pub depth: usize,
    pub math: bool,
    pub lists: bool,
    pub figures: bool,
    pub tables: bool,
    pub labels: bool,
    pub color: bool,
    pub breaks: bool,
    pub blocks: usize,
}

impl DCfg {
    pub fn full() -> DCfg {
        DCfg { depth: 3, math: true, lists: true, figures: true, tables: true, labels: true, color: true, breaks: true, blocks: 5 }
    }
    fn deeper(self) -> DCfg {
        DCfg { depth: self.depth.saturating_sub(1), blocks: 2, ..self }
    }
}

pub fn word(r: &mut Rng) -> String {
    let mut s = String::new();
    for i in 0..1 + r.below(6) {
        match r.below(20) {
            0 if i > 0 => s.push(*r.pick(&['0', '1', '7'])),
            1 if i > 0 => s.push_str(r.pick(&["-", "+", "="])),
            2 => s.push_str(r.pick(&["é", "中", "ß"])),
            3 => s.push(*r.pick(&['A', 'T', 'Z'])),
            _ => s.push(*r.pick(&['a', 'b', 'c', 'd', 'e', 'i', 'm', 'n', 'o', 's', 't'])),
        }
    }
    match r.below(24) {
        // words that are markup in the target language
        0 => r.pick(&["-", "+", "=", "==", "1.", "12.", "a<b", "<a", "<ab>", "<", "=x", "-x", "a-?"]).to_string(),
        1 => format!("``{s}"),
        2 => format!("`{s}"),
        _ => s,
    }
}

pub const TEXTUAL: &[&str] = &["textbf", "textit", "emph", "texttt", "textrm", "textsf", "textup", "textmd", "text", "footnote", "textnormal"];
pub const REFS: &[&str] = &["ref", "eqref", "cite"];

fn small_math(r: &mut Rng) -> Vec<M> {
    let mut c = Cfg::full();
    c.depth = 1 + r.below(2);
    c.len = 3;
    c.text = false;
    c.envs = r.chance(1, 6);
    latex::list(r, c)
}

pub fn label(r: &mut Rng) -> String {
    let mut s = String::from(*r.pick(&["eq:", "fig:", "tab-", "sec_", "", "l."]));
    for _ in 0..1 + r.below(4) {
        s.push(*r.pick(&['a', 'b', 'x', '1', '2']));
    }
    s
}

/// running text: words with spaces between them, decorated
pub fn inline(r: &mut Rng, c: DCfg) -> Vec<I> {
    let n = 1 + r.below(6);
    let mut v: Vec<I> = vec![];
    for i in 0..n {
        if i > 0 {
            v.push(if r.chance(1, 20) { I::Tie } else { I::Sp });
        }
        match r.below(14) {
            0 if c.depth > 0 => v.push(I::Cmd(r.pick(TEXTUAL).to_string(), inline(r, c.deeper()))),
            1 if c.depth > 0 => v.push(I::G(inline(r, c.deeper()))),
            2 | 3 if c.math => v.push(I::Math(small_math(r), r.below(2) as u8)),
            4 => {
                v.push(I::W(word(r)));
                v.push(I::Sp);
                v.push(I::Esc(*r.pick(&['%', '_', '{', '}', '#', '$', '&'])));
            }
            5 if c.labels => {
                v.push(I::W(word(r)));
                v.push(I::Sp);
                v.push(I::Label(label(r)));
            }
            6 if c.labels => v.push(I::Cmd(r.pick(REFS).to_string(), vec![I::W(word(r))])),
            7 if c.color && c.depth > 0 => {
                let (m, k) = color(r);
                v.push(I::Color(r.pick(&["textcolor", "colorbox"]).to_string(), m, k, inline(r, c.deeper())))
            }
            8 if c.depth > 0 => {
                // glued to a word
                v.push(I::W(word(r)));
                v.push(I::Cmd(r.pick(TEXTUAL).to_string(), inline(r, c.deeper())));
                v.push(I::W(word(r)));
            }
            9 => {
                v.push(I::Mark('('));
                v.push(I::W(word(r)));
                v.push(I::Mark(')'));
            }
            _ => v.push(I::W(word(r))),
        }
        if c.breaks && r.chance(1, 25) {
            v.push(I::Br);
        } else if r.chance(1, 5) {
            let ok = matches!(v.last(), Some(I::W(_) | I::Cmd(..) | I::G(_) | I::Math(..)));
            if ok {
                v.push(I::Mark(*r.pick(&[',', '.', ';', '?', '!', '*', '@', '"', '\'', '/', ']', ')', '['])));
            }
        }
    }
    v
}

pub fn color(r: &mut Rng) -> (Option<String>, String) {
    match r.below(4) {
        0 => (Some("rgb".into()), r.pick(&["1,0,0", "0.2,0.3,0.4", "0,0,1"]).to_string()),
        1 => (Some("HTML".into()), r.pick(&["FF0000", "a1B2c3"]).to_string()),
        _ => (None, r.pick(&["red", "blue", "green", "orange"]).to_string()),
    }
}

pub fn items(r: &mut Rng, c: DCfg) -> Vec<Item> {
    (0..1 + r.below(3))
        .map(|_| {
            let mut parts = vec![];
            if !r.chance(1, 10) || c.depth == 0 {
                parts.push(Part::Text(inline(r, DCfg { depth: c.depth.min(1), labels: false, ..c })));
            }
            for _ in 0..r.below(3) {
                if c.depth > 0 && r.chance(1, 2) {
                    parts.push(Part::List(r.chance(1, 2), items(r, c.deeper())));
                } else if c.math && r.chance(1, 5) {
                    parts.push(Part::Display(small_math(r), r.below(2) as u8));
                } else if r.chance(1, 6) {
                    let d = DCfg { labels: false, lists: false, figures: false, ..c.deeper() };
                    parts.push(Part::Block(Box::new(match r.below(3) {
                        0 if c.math => B::EnvMath(math_env(r), None, false),
                        1 if c.depth > 0 => B::Quote("quote".into(), vec![B::Par(inline(r, d))]),
                        _ => B::Tabular(tab(r, d)),
                    })));
                } else if !matches!(parts.last(), Some(Part::Text(_))) {
                    parts.push(Part::Text(inline(r, DCfg { depth: c.depth.min(1), labels: false, ..c })));
                }
            }
            Item { parts }
        })
        .collect()
}

/// lists in lists in lists
pub fn tower(r: &mut Rng, c: DCfg) -> B {
    let flat = DCfg { depth: 0, labels: false, ..c };
    let mut v = vec![Item { parts: vec![Part::Text(inline(r, flat))] }];
    for _ in 0..2 + r.below(20) {
        let mut at = vec![];
        for _ in 0..r.below(2) {
            at.push(Item { parts: vec![Part::Text(inline(r, flat))] });
        }
        let mut parts = vec![];
        if r.chance(3, 4) {
            parts.push(Part::Text(inline(r, flat)));
        }
        parts.push(Part::List(r.chance(1, 2), v));
        if r.chance(1, 3) {
            parts.push(Part::Text(inline(r, flat)));
        }
        at.push(Item { parts });
        for _ in 0..r.below(2) {
            at.push(Item { parts: vec![Part::Text(inline(r, flat))] });
        }
        v = at;
    }
    B::List(r.chance(1, 2), v)
}

pub fn tab(r: &mut Rng, c: DCfg) -> Tab {
    let cols = 1 + r.below(4);
    let mut spec = String::new();
    for i in 0..=cols {
        if r.chance(1, 4) {
            spec.push('|');
            while r.chance(1, 4) {
                spec.push('|');
            }
        }
        if i < cols {
            spec.push(*r.pick(&['l', 'c', 'r']));
        }
    }
    let mut rows = vec![];
    for _ in 0..1 + r.below(4) {
        if r.chance(1, 4) {
            rows.push(Row::Rule(r.pick(&["hline", "toprule", "midrule", "bottomrule"]).to_string()));
        }
        let n = if r.chance(1, 5) { 1 + r.below(cols) } else { cols };
        rows.push(Row::Cells(
            (0..n)
                .map(|_| if r.chance(1, 6) { vec![] } else { inline(r, DCfg { depth: c.depth.min(1), labels: false, breaks: false, ..c }) })
                .collect(),
        ));
    }
    let end = r.chance(2, 3);
    if end && r.chance(1, 2) {
        rows.push(Row::Rule("hline".into()));
    }
    Tab { spec, rows, end }
}

pub fn fig(r: &mut Rng, c: DCfg) -> Fig {
    let table = r.chance(1, 3);
    let mut parts = vec![];
    if r.chance(1, 2) {
        parts.push(FigPart::Centering);
    }
    if table {
        parts.push(FigPart::Tabular(tab(r, c.deeper())));
    } else {
        for _ in 0..1 + r.below(2) {
            parts.push(match r.below(6) {
                0 if c.math => FigPart::Eq(math_env(r)),
                1 => FigPart::Text(inline(r, DCfg { labels: false, ..c.deeper() })),
                2 => FigPart::Tabular(tab(r, c.deeper())),
                _ => image(r),
            });
        }
    }
    if r.chance(3, 4) {
        parts.push(FigPart::Caption(inline(r, DCfg { labels: false, ..c.deeper() })));
    }
    if r.chance(3, 4) {
        parts.push(FigPart::Label(label(r)));
    }
    r.shuffle(&mut parts);
    Fig { table, place: if r.chance(1, 3) { Some(r.pick(&["ht", "h", "htbp"]).to_string()) } else { None }, parts }
}

pub fn image(r: &mut Rng) -> FigPart {
    let mut kv = vec![];
    if r.chance(1, 2) {
        kv.push(("width".to_string(), r.pick(&["0.5\\textwidth", "\\textwidth", "3cm", "0.8\\linewidth", "12pt", "0.25\\textheight", "1.25 cm", "2in", ".75\\columnwidth", "0.4 \\textwidth", "5.5em", "17mm", "\\columnwidth"]).to_string()));
    }
    if r.chance(1, 3) {
        kv.push(("height".to_string(), r.pick(&["4cm", "0.3\\textheight", "10mm"]).to_string()));
    }
    if r.chance(1, 4) {
        kv.push((r.pick(&["angle", "scale"]).to_string(), "45".to_string()));
    }
    r.shuffle(&mut kv);
    FigPart::Image(kv, r.pick(&["a.png", "img/x-1.pdf", "figs/plot.svg", "b_2.jpg", "dir name/c.png", "q\"q.png"]).to_string())
}

pub fn math_env(r: &mut Rng) -> Env {
    let mut c = Cfg::full();
    c.depth = 2;
    c.len = 3;
    c.text = r.chance(1, 3);
    latex::env(r, c)
}

pub fn block(r: &mut Rng, c: DCfg) -> B {
    match r.below(12) {
        0 => B::Head(1 + r.below(3), inline(r, DCfg { labels: false, ..c.deeper() })),
        1 if c.math => B::Display(small_math(r), r.below(2) as u8),
        2 if c.math => {
            let e = math_env(r);
            let l = if c.labels && r.chance(1, 2) { Some(label(r)) } else { None };
            B::EnvMath(e, l, r.chance(1, 2))
        }
        3 | 4 if c.lists => B::List(r.chance(1, 2), items(r, c)),
        5 if c.depth > 0 => B::Quote(r.pick(&["quote", "abstract"]).to_string(), (0..1 + r.below(2)).map(|_| block(r, c.deeper())).collect()),
        6 if c.figures => B::Figure(fig(r, c)),
        7 if c.tables => B::Tabular(tab(r, c)),
        _ => B::Par(inline(r, c)),
    }
}

pub fn doc(r: &mut Rng, c: DCfg) -> Vec<B> {
    (0..1 + r.below(c.blocks)).map(|_| block(r, c)).collect()
}

// ---------------------------------------------------------------- both spellings at once

/// Prints the LaTeX and the Typst code side by side: layout between words and blocks is chosen
/// once and carries over.
pub struct Two<'r> {
    pub tex: String,
    pub typ: String,
    pub r: &'r mut Rng,
    pub level: usize,
}

fn lit(c: char, o: &mut String) {
    // stands for itself in markup
    if c == '`' {
        o.push('‘');
        return;
    }
    if matches!(c, '+' | '=' | '.' | '?' | '!' | '*' | '_' | '#' | '$' | '@' | '~' | '`' | '"' | '\'' | '<' | '>' | '[' | ']' | '/' | '\\' | '{' | '}') && c != '\'' {
        o.push('\\');
    }
    o.push(c);
}

impl<'r> Two<'r> {
    pub fn new(r: &'r mut Rng, level: usize) -> Self {
        Two { tex: String::new(), typ: String::new(), r, level }
    }
    fn both(&mut self, s: &str) {
        self.tex.push_str(s);
        self.typ.push_str(s);
    }
    /// a space of any layout, within a paragraph
    pub fn sp(&mut self) {
        let s = match self.r.below(if self.level > 1 { 8 } else { 2 }) {
            0..=3 => " ",
            4 => "  ",
            5 => "\n",
            6 => "\n  ",
            _ => " % a comment $ { \\begin{x}\n",
        };
        self.tex.push_str(s);
        self.typ.push(' ');
    }
    /// layout that has no meaning (in arguments, between parts of a block)
    pub fn gap(&mut self) {
        if self.level > 0 && self.r.chance(1, 3) {
            let s = *self.r.pick(if self.level > 1 { &[" ", "\n", "\t", " % note \\end{}\n"][..] } else { &[" ", "  "][..] });
            self.tex.push_str(s);
            self.typ.push(' ');
        }
    }
    fn math(&mut self, v: &[M]) {
        let s = latex::tex(self.r, self.level, v);
        self.tex.push_str(&s);
        self.typ.push_str(&latex::typ(v));
    }
    pub fn inline(&mut self, v: &[I]) {
        for i in v {
            match i {
                I::W(s) => {
                    self.tex.push_str(s);
                    if s == "-" {
                        self.typ.push('\\');
                    }
                    s.chars().for_each(|c| lit(c, &mut self.typ));
                }
                I::Tie => self.both("~"),
                I::Br => {
                    self.tex.push_str("\\\\");
                    self.typ.push_str("\\ ");
                }
                I::Sp => self.sp(),
                I::Mark(c) => {
                    self.tex.push(*c);
                    lit(*c, &mut self.typ);
                }
                I::Esc(c) => {
                    // a command name of one character; the space behind it is kept
                    self.tex.push('\\');
                    self.tex.push(*c);
                    lit(*c, &mut self.typ);
                    self.typ.push(' ');
                }
                I::Cmd(n, a) => {
                    self.tex.push_str(&format!("\\{n}"));
                    let alias = match n.as_str() {
                        "textbf" => "#strong".to_string(),
                        "textit" => "#emph".to_string(),
                        n => latex::spec().get_cmd(n).and_then(|c| c.alias.clone()).unwrap(),
                    };
                    self.tex.push('{');
                    self.typ.push_str(&format!("{alias}["));
                    self.inline(a);
                    self.tex.push('}');
                    self.typ.push_str("];");
                }
                I::G(a) => {
                    self.tex.push('{');
                    self.inline(a);
                    self.tex.push('}');
                }
                I::Math(m, st) => {
                    self.tex.push_str(if *st == 0 { "$" } else { "\\(" });
                    self.typ.push_str("#math.equation(block: false, $");
                    self.math(m);
                    self.tex.push_str(if *st == 0 { "$" } else { "\\)" });
                    self.typ.push_str("$);");
                }
                I::Label(l) => {
                    self.tex.push_str(&format!("\\label{{{l}}}"));
                    self.typ.push_str(&format!("<{l}>"));
                }
                I::Color(n, m, k, body) => {
                    self.tex.push_str(&format!("\\{n}"));
                    let alias = latex::spec().get_cmd(n).and_then(|c| c.alias.clone()).unwrap();
                    match m {
                        Some(m) => {
                            self.tex.push_str(&format!("[{m}]"));
                            self.typ.push_str(&format!("{alias}([{m}], "));
                        }
                        None => self.typ.push_str(&format!("{alias}(none, ")),
                    }
                    self.tex.push_str(&format!("{{{k}}}{{"));
                    self.typ.push_str(&format!("[{k}])["));
                    self.inline(body);
                    self.tex.push('}');
                    self.typ.push_str("];");
                }
            }
        }
    }
    fn list(&mut self, ordered: bool, items: &[Item], ind: usize) {
        let n = if ordered { "enumerate" } else { "itemize" };
        self.tex.push_str(&format!("\\begin{{{n}}}"));
        self.blank();
        for it in items {
            self.tex.push_str("\\item");
            self.tex.push_str(if self.level > 1 && self.r.chance(1, 4) { "\n  " } else { " " });
            self.typ.push('\n');
            self.typ.push_str(&" ".repeat(ind));
            self.typ.push_str(if ordered { "+ " } else { "- " });
            for (k, p) in it.parts.iter().enumerate() {
                if k > 0 {
                    // a line break, or the rest of the line
                    self.tex.push_str(self.r.pick(&["\n", " ", "\n  "]));
                    self.typ.push('\n');
                    self.typ.push_str(&" ".repeat(ind + 2));
                }
                match p {
                    Part::Text(v) => self.inline(v),
                    Part::Display(m, st) => self.display(m, *st),
                    Part::List(o, v) => self.list(*o, v, ind + 2),
                    Part::Block(b) => self.block(b),
                }
            }
            self.blank();
        }
        self.tex.push_str(&format!("\\end{{{n}}}"));
        self.typ.push('\n');
        self.typ.push_str(&" ".repeat(ind));
    }
    /// layout in the LaTeX code only
    fn blank(&mut self) {
        let s = if self.level == 0 { "\n" } else { *self.r.pick(&["\n", "\n  ", " ", " % c\n"]) };
        self.tex.push_str(s);
    }
    fn display(&mut self, m: &[M], st: u8) {
        self.tex.push_str(if st == 0 { "$$" } else { "\\[" });
        self.typ.push_str("$ ");
        self.math(m);
        self.tex.push_str(if st == 0 { "$$" } else { "\\]" });
        self.typ.push_str(" $");
    }
    pub fn env_math(&mut self, e: &Env, l: &Option<String>, front: bool) {
        let mut t = Tex::new(self.r, self.level);
        t.item(&M::Env(e.clone()));
        let mut s = t.out;
        if let Some(l) = l {
            let end = format!("\\end{{{}}}", e.name);
            let lab = format!("\\label{{{l}}}");
            // (a script that follows would take the label for its base)
            let bare = matches!(e.rows.first().and_then(|r| r.first()).and_then(|c| c.first()), Some(M::Att(None, _) | M::Infix(..)));
            if front && e.arg.is_none() && !bare {
                let at = s.find(&format!("{{{}}}", e.name)).unwrap() + e.name.len() + 2;
                s.insert_str(at, &lab);
            } else {
                let at = s.rfind(&end).unwrap();
                s.insert_str(at, &lab);
            }
        }
        self.tex.push_str(&s);
        self.typ.push_str("$ ");
        self.typ.push_str(&latex::typ(&[M::Env(e.clone())]));
        self.typ.push_str(" $");
        if let Some(l) = l {
            self.typ.push_str(&format!("<{l}>"));
        }
    }
    pub fn tabular(&mut self, t: &Tab) {
        self.tex.push_str("\\begin{tabular}{");
        let spaced = self.level > 0 && self.r.chance(1, 4);
        for c in t.spec.chars() {
            self.tex.push(c);
            if spaced && self.r.chance(1, 2) {
                self.tex.push(' ');
            }
        }
        self.tex.push('}');
        let cols: Vec<char> = t.spec.chars().filter(|c| *c != '|').collect();
        let al: Vec<&str> = cols
            .iter()
            .map(|c| match c {
                'l' => "left",
                'c' => "center",
                _ => "right",
            })
            .collect();
        self.typ.push_str(&format!("#table(stroke: none, columns: {}, align: ({}, ), ", cols.len(), al.join(", ")));
        let mut x = 0;
        for c in t.spec.chars() {
            if c == '|' {
                self.typ.push_str(&format!("table.vline(stroke: .5pt, x: {x}), "));
            } else {
                x += 1;
            }
        }
        let last = t.rows.iter().rposition(|r| matches!(r, Row::Cells(_))).unwrap();
        self.blank();
        for (i, row) in t.rows.iter().enumerate() {
            match row {
                Row::Rule(n) => {
                    self.tex.push_str(&format!("\\{n}"));
                    self.blank();
                    let w = if n == "toprule" || n == "bottomrule" { "1pt" } else { ".5pt" };
                    self.typ.push_str(&format!("table.hline(stroke: {w}), "));
                }
                Row::Cells(cells) => {
                    for (j, c) in cells.iter().enumerate() {
                        if j > 0 {
                            self.tex.push('&');
                        }
                        self.blank();
                        let ends = i == last && !t.end;
                        // an empty last cell that is not terminated does not count
                        let skip = ends && j + 1 == cells.len() && c.is_empty();
                        if !skip {
                            self.typ.push('[');
                        }
                        self.inline(c);
                        if !skip {
                            self.typ.push_str("], ");
                        }
                        if !c.is_empty() {
                            self.blank();
                        }
                    }
                    if !(i == last && !t.end) {
                        for _ in cells.len()..cols.len() {
                            self.typ.push_str("[], ");
                        }
                        self.tex.push_str("\\\\");
                        self.blank();
                    }
                }
            }
        }
        self.tex.push_str("\\end{tabular}");
        self.typ.push_str(");");
    }
    pub fn figure(&mut self, f: &Fig) {
        let n = if f.table { "table" } else { "figure" };
        self.tex.push_str(&format!("\\begin{{{n}}}"));
        if let Some(p) = &f.place {
            self.tex.push_str(&format!("[{p}]"));
        }
        self.blank();
        self.typ.push_str("#figure(");
        let mut body = String::new();
        let mut cap = String::new();
        let mut lab = String::new();
        for p in &f.parts {
            let keep = std::mem::take(&mut self.typ);
            match p {
                FigPart::Centering => {
                    self.tex.push_str("\\centering");
                }
                FigPart::Caption(v) => {
                    self.tex.push_str("\\caption{");
                    self.inline(v);
                    self.tex.push('}');
                    cap = std::mem::take(&mut self.typ);
                }
                FigPart::Label(l) => {
                    self.tex.push_str(&format!("\\label{{{l}}}"));
                    lab = l.clone();
                }
                FigPart::Image(kv, path) => {
                    self.tex.push_str("\\includegraphics");
                    if !kv.is_empty() {
                        let is = *self.r.pick(&["=", "=", " = ", "= ", " ="]);
                        let o: Vec<String> = kv.iter().map(|(k, v)| format!("{k}{is}{v}")).collect();
                        let (a, sep, b) = *self.r.pick(&[("", ",", ""), ("", ", ", ""), (" ", " , ", " "), ("\n", ",\n  ", "\n"), ("% [c]\n", ",% c, d=e\n ", " % c\n")]);
                        self.tex.push_str(&format!("[{a}{}{b}]", o.join(sep)));
                    }
                    self.tex.push_str(&format!("{{{path}}}"));
                    self.typ.push_str("#image(");
                    for (k, v) in kv {
                        if k == "width" || k == "height" {
                            let v = v.replace(' ', "");
                            let v = if v.starts_with('.') { format!("0{v}") } else { v };
                            let v = match v.find('\\') {
                                Some(0) => "100%".to_string(),
                                Some(i) => format!("{} * 100%", &v[..i]),
                                None => v.clone(),
                            };
                            self.typ.push_str(&format!("{k}: {v}, "));
                        }
                    }
                    self.typ.push_str(&format!("\"{}\")", path.replace('"', "\\\"")));
                }
                FigPart::Tabular(t) => self.tabular(t),
                FigPart::Eq(e) => self.env_math(e, &None, false),
                FigPart::Text(v) => self.inline(v),
            }
            body.push_str(&std::mem::replace(&mut self.typ, keep));
            body.push('\n');
            self.blank();
        }
        self.tex.push_str(&format!("\\end{{{n}}}"));
        if f.parts.iter().any(|p| matches!(p, FigPart::Caption(_))) {
            self.typ.push_str(&format!("caption: [{cap}],"));
        }
        self.typ.push_str(&format!(")[{body}];"));
        if !lab.is_empty() {
            self.typ.push_str(&format!("<{lab}>"));
        }
    }
    pub fn block(&mut self, b: &B) {
        match b {
            B::Par(v) => self.inline(v),
            B::Head(l, v) => {
                let n = ["section", "subsection", "subsubsection"][*l - 1];
                self.tex.push_str(&format!("\\{n}{{"));
                self.typ.push_str(&format!("#heading(level: {l})["));
                self.inline(v);
                self.tex.push('}');
                self.typ.push_str("];");
            }
            B::Display(m, st) => self.display(m, *st),
            B::EnvMath(e, l, front) => self.env_math(e, l, *front),
            B::List(o, v) => self.list(*o, v, 0),
            B::Quote(n, v) => {
                self.tex.push_str(&format!("\\begin{{{n}}}"));
                self.typ.push_str("#quote(block: true)[");
                self.both("\n");
                self.blocks(v);
                self.both("\n");
                self.tex.push_str(&format!("\\end{{{n}}}"));
                self.typ.push_str("];");
            }
            B::Figure(f) => self.figure(f),
            B::Tabular(t) => self.tabular(t),
        }
    }
    pub fn blocks(&mut self, v: &[B]) {
        for (i, b) in v.iter().enumerate() {
            if i > 0 {
                // blank line: a new paragraph
                let one = self.level > 0 && self.r.chance(1, 3);
                self.both(if one { "\n" } else { "\n\n" });
            }
            self.block(b);
        }
    }
}

/// LaTeX and Typst code of a document
pub fn spell(r: &mut Rng, level: usize, v: &[B]) -> (String, String) {
    let mut t = Two::new(r, level);
    t.blocks(v);
    (t.tex, t.typ)
}
