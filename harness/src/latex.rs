//! Structured LaTeX: an abstract formula, its LaTeX spelling (with freely chosen layout) and the
//! Typst code it has to convert to. The Typst printer is an independent reading of the intended
//! mapping: it works from the abstract formula, never from the parser's tree.
use crate::rng::Rng;
use mitex_spec::*;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
pub enum M {
    /// run of ordinary characters
    W(String),
    /// one of the marks that the target language needs escaped
    P(char),
    /// command without arguments
    Sym(String),
    /// `{...}`
    G(Vec<M>),
    /// command with a fixed number of arguments
    Cmd(String, Vec<A>),
    /// command with an optional bracket argument and a mandatory one
    Opt(String, Option<Vec<M>>, A),
    /// base with scripts (no base: only at the start of a list)
    Att(Option<Box<M>>, Vec<S>),
    /// paired delimiters
    LR(String, Vec<M>, String),
    /// infix command; the only item of its list
    Infix(String, Vec<M>, Vec<M>),
    /// command that takes the rest of the list; the last item of its list
    Greedy(String, Vec<M>),
    /// postfix operator
    Left1(Box<M>, String),
    Env(Env),
    /// `\substack{..\\..}`
    Sub(Vec<Vec<M>>),
    /// text-like command inside a formula
    Text(String, Vec<X>),
    /// line break at the top level
    NL,
    /// color command: command, model, color, body
    Color(String, Option<String>, String, Vec<M>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Env {
    pub name: String,
    pub arg: Option<String>,
    pub rows: Vec<Vec<Vec<M>>>,
    pub trailing: bool,
}

/// what a text command holds, with spaces between
#[derive(Clone, Debug, PartialEq)]
pub enum X {
    W(String),
    /// a formula in the line
    F(Vec<M>),
    /// line break
    Br,
    Cmd(String, Vec<X>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum A {
    B(Vec<M>),
    C(char),
    Cs(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum S {
    Sub(A),
    Sup(A),
    Prime(usize),
}

pub struct Names {
    pub sym: Vec<String>,
    pub sym_any: Vec<String>,
    pub cmd1: Vec<String>,
    pub cmd2: Vec<String>,
    pub textual: Vec<String>,
    pub greedy: Vec<String>,
    pub infix: Vec<String>,
    pub left1: Vec<String>,
    pub matrix: Vec<String>,
    pub cases: Vec<String>,
    pub mathenv: Vec<String>,
}

pub fn spec() -> &'static CommandSpec {
    &mitex_spec_gen::DEFAULT_SPEC
}

const RESERVED: &[&str] = &[
    "item", "label", "includegraphics", "color", "textcolor", "colorbox", "substack", "left", "right", "begin", "end", "else", "fi",
    "middle", "newcommand", "renewcommand", "providecommand", "DeclareRobustCommand", "newenvironment", "renewenvironment", "tag",
    "caption", "operatorname", "hspace", "vspace", "raisebox", "cr", "newline",
];

/// Commands whose declared code is a bare delimiter or looks like a named argument: inside an
/// argument their code does not parse. Known findings of C18; kept out of the other workloads.
pub const FRAGILE: &[&str] =
    &[
    "lBrace", "lceil", "lfloor", "lgroup", "llcorner", "ulcorner", "textbraceleft", "approxcolon", "approxcoloncolon", "rBrace", "rceil", "rfloor",
    "rgroup", "lrcorner", "urcorner", "textbraceright", "rmoustache",
    // an apostrophe in Typst, which attaches to what it follows
    "rq",
];

pub fn names() -> &'static Names {
    static N: OnceLock<Names> = OnceLock::new();
    N.get_or_init(|| {
        let mut n = Names {
            sym: vec![],
            sym_any: vec![],
            cmd1: vec![],
            cmd2: vec![],
            textual: vec![],
            greedy: vec![],
            infix: vec![],
            left1: vec![],
            matrix: vec![],
            cases: vec![],
            mathenv: vec![],
        };
        for (name, item) in spec().items() {
            let name = name.to_string();
            if !name.chars().all(|c| c.is_ascii_alphabetic() || c == '*') || name.is_empty() {
                continue;
            }
            if name.starts_with("if") || RESERVED.contains(&name.as_str()) || FRAGILE.contains(&name.as_str()) || name.ends_with("command*") || name.ends_with("environment*") || name.ends_with("Command*") {
                continue;
            }
            match item {
                CommandSpecItem::Cmd(c) => {
                    let alias = c.alias.clone().unwrap_or(name.clone());
                    let ident = !alias.is_empty() && alias.chars().all(|c| c.is_ascii_alphanumeric() || c == '.') && alias.len() > 1;
                    if name.contains('*') {
                        continue;
                    }
                    match &c.args {
                        ArgShape::Right { pattern: ArgPattern::None } => {
                            if ident {
                                n.sym.push(name.clone());
                            }
                            if !alias.is_empty() {
                                n.sym_any.push(name);
                            }
                        }
                        ArgShape::Right { pattern: ArgPattern::FixedLenTerm { len } } => {
                            if alias.starts_with('#') {
                                if alias.starts_with("#text") {
                                    n.textual.push(name);
                                }
                            } else if *len == 1 && ident {
                                n.cmd1.push(name)
                            } else if *len == 2 && ident {
                                n.cmd2.push(name)
                            }
                        }
                        ArgShape::Right { pattern: ArgPattern::Greedy } => n.greedy.push(name),
                        ArgShape::InfixGreedy => n.infix.push(name),
                        ArgShape::Left1 => n.left1.push(name),
                        _ => {}
                    }
                }
                CommandSpecItem::Env(e) => match e.ctx_feature {
                    ContextFeature::IsMatrix => n.matrix.push(name),
                    ContextFeature::IsCases => n.cases.push(name),
                    ContextFeature::IsMath => n.mathenv.push(name),
                    _ => {}
                },
            }
        }
        for v in [
            &mut n.sym, &mut n.sym_any, &mut n.cmd1, &mut n.cmd2, &mut n.textual, &mut n.greedy, &mut n.infix, &mut n.left1, &mut n.matrix,
            &mut n.cases, &mut n.mathenv,
        ] {
            v.sort();
        }
        n
    })
}

// ---------------------------------------------------------------- generation

#[derive(Clone, Copy)]
pub struct Cfg {
    pub depth: usize,
    pub len: usize,
    pub envs: bool,
    pub infix: bool,
    pub greedy: bool,
    pub text: bool,
    pub color: bool,
    pub any_sym: bool,
    pub brackets: bool,
    pub marks: bool,
    pub unicode: bool,
    pub lr: bool,
}

impl Cfg {
    pub fn full() -> Cfg {
        Cfg {
            depth: 4,
            len: 5,
            envs: true,
            infix: true,
            greedy: true,
            text: true,
            color: false,
            any_sym: true,
            brackets: true,
            marks: true,
            unicode: true,
            lr: true,
        }
    }
    fn deeper(self) -> Cfg {
        Cfg { depth: self.depth.saturating_sub(1), len: self.len.saturating_sub(1).max(2), ..self }
    }
}

const CHARS: &[&str] = &["a", "b", "c", "x", "y", "z", "n", "k", "A", "B", "R", "0", "1", "2", "7", "9"];

pub fn word(r: &mut Rng, c: Cfg) -> String {
    let mut s = String::new();
    for _ in 0..1 + r.below(3) {
        match r.below(12) {
            0 => s.push_str(r.pick(&["+", "-", "=", "<", ">", "|", ".", ":", "!", "?"])),
            1 if c.unicode => s.push_str(r.pick(&["é", "中", "α", "ß", "Ω"])),
            _ => s.push_str(r.pick(CHARS)),
        }
    }
    s
}

fn leaf(r: &mut Rng, c: Cfg) -> M {
    match r.below(10) {
        0..=4 => M::W(word(r, c)),
        5 if c.marks => M::P(*r.pick(&[',', ';', '/', '*', '@', '"', '#', '~'])),
        6 if c.brackets => M::P(*r.pick(&['(', ')', '[', ']'])),
        7 if c.any_sym => M::Sym(r.pick(&names().sym_any).clone()),
        _ => M::Sym(r.pick(&names().sym).clone()),
    }
}

pub fn arg(r: &mut Rng, c: Cfg) -> A {
    match r.below(6) {
        0 => A::C(*r.pick(&['a', 'b', 'x', '1', '2', '3'])),
        1 => A::Cs(r.pick(&names().sym).clone()),
        _ => A::B(group_list(r, c)),
    }
}

fn script_arg(r: &mut Rng, c: Cfg) -> A {
    match r.below(6) {
        0 | 1 => A::C(*r.pick(&['a', 'b', 'n', 'k', '1', '2', '0', '+'])),
        2 => A::Cs(r.pick(&names().sym).clone()),
        _ => A::B(group_list(r, c)),
    }
}

/// the content of a group: may be empty, may contain an infix command
pub fn group_list(r: &mut Rng, c: Cfg) -> Vec<M> {
    let c = c.deeper();
    if r.chance(1, 12) {
        return vec![];
    }
    list(r, c)
}

fn base(r: &mut Rng, c: Cfg) -> M {
    match r.below(8) {
        0..=2 => M::W(r.pick(CHARS).to_string()),
        3 => M::Sym(r.pick(&names().sym).clone()),
        4 if c.depth > 0 => M::G(group_list(r, c)),
        5 if c.depth > 0 => M::Cmd(r.pick(&names().cmd1).clone(), vec![arg(r, c)]),
        6 if c.depth > 0 && c.lr => lr(r, c),
        7 if !names().left1.is_empty() => M::Left1(Box::new(M::Sym(r.pick(&names().sym).clone())), r.pick(&names().left1).clone()),
        _ => M::Sym(r.pick(&names().sym).clone()),
    }
}

pub fn scripts(r: &mut Rng, c: Cfg) -> Vec<S> {
    let mut v = vec![];
    if r.chance(1, 4) {
        v.push(S::Prime(1 + r.below(3)));
    }
    match r.below(4) {
        0 => v.push(S::Sub(script_arg(r, c))),
        1 => v.push(S::Sup(script_arg(r, c))),
        2 => {
            v.push(S::Sub(script_arg(r, c)));
            v.push(S::Sup(script_arg(r, c)));
        }
        _ => {
            v.push(S::Sup(script_arg(r, c)));
            v.push(S::Sub(script_arg(r, c)));
        }
    }
    v
}

pub const DELIMS: &[&str] = &["(", ")", "[", "]", "|", ".", "/", "\\{", "\\}", "\\langle", "\\rangle", "\\lVert", "\\vert", "\\lbrace"];

fn lr(r: &mut Rng, c: Cfg) -> M {
    M::LR(r.pick(DELIMS).to_string(), list(r, Cfg { brackets: false, ..c.deeper() }), r.pick(DELIMS).to_string())
}

pub fn env(r: &mut Rng, c: Cfg) -> Env {
    let n = names();
    let name = match r.below(4) {
        0 => r.pick(&n.cases).clone(),
        1 => r.pick(&n.mathenv).clone(),
        _ => r.pick(&n.matrix).clone(),
    };
    let arg = spec().get_env(&name).and_then(|e| match e.args {
        ArgPattern::FixedLenTerm { len: 1 } => Some(if matches!(e.ctx_feature, ContextFeature::IsMath) {
            format!("{}", 1 + r.below(4))
        } else {
            let mut s = String::new();
            for _ in 0..1 + r.below(4) {
                s.push(*r.pick(&['l', 'c', 'r']));
                if r.chance(1, 4) {
                    s.push('|');
                }
            }
            s
        }),
        _ => None,
    });
    let cols = 1 + r.below(3);
    let c = c.deeper();
    let rows = (0..1 + r.below(3))
        .map(|_| {
            (0..cols)
                .map(|_| if r.chance(1, 8) { vec![] } else { list(r, Cfg { len: 2, ..c }) })
                .collect()
        })
        .collect();
    Env { name, arg, rows, trailing: r.chance(1, 4) }
}

/// a list of items as it may stand in a group, a cell, a script or between delimiters
pub fn list(r: &mut Rng, c: Cfg) -> Vec<M> {
    if c.infix && c.depth > 0 && r.chance(1, 12) {
        let d = Cfg { infix: false, greedy: false, brackets: false, ..c.deeper() };
        return vec![M::Infix(r.pick(&names().infix).clone(), plain_list(r, d), plain_list(r, d))];
    }
    let mut v = plain_list(r, c);
    if c.greedy && c.depth > 0 && r.chance(1, 12) {
        let g: Vec<String> = names().greedy.clone();
        let d = Cfg { infix: false, ..c.deeper() };
        v.push(M::Greedy(r.pick(&g).clone(), plain_list(r, d)));
    }
    v
}

/// at least one item, no infix or greedy command at this level
pub fn plain_list(r: &mut Rng, c: Cfg) -> Vec<M> {
    let n = 1 + r.below(c.len.max(1));
    let mut v: Vec<M> = vec![];
    for i in 0..n {
        let it = if c.depth == 0 {
            leaf(r, c)
        } else {
            match r.below(18) {
                0..=6 => leaf(r, c),
                7 => M::G(group_list(r, c)),
                8 => M::Cmd(r.pick(&names().cmd1).clone(), vec![arg(r, c)]),
                9 => M::Cmd(r.pick(&names().cmd2).clone(), vec![arg(r, c), arg(r, c)]),
                10 => {
                    let o = if r.chance(1, 2) { Some(plain_list(r, Cfg { brackets: false, depth: 0, ..c.deeper() })) } else { None };
                    M::Opt("sqrt".into(), o, arg(r, c))
                }
                11 | 12 => {
                    let b = if i == 0 && r.chance(1, 8) { None } else { Some(Box::new(base(r, c))) };
                    let mut s = scripts(r, c);
                    if b.is_none() {
                        s.retain(|s| !matches!(s, S::Prime(_)));
                        s.truncate(1);
                    }
                    M::Att(b, s)
                }
                13 if c.lr => lr(r, c),
                14 => M::Left1(Box::new(M::Sym(r.pick(&names().sym).clone())), r.pick(&names().left1).clone()),
                15 if c.envs => M::Env(env(r, c)),
                16 if c.text => M::Text(r.pick(&names().textual).clone(), texts(r, c)),
                17 if c.envs && r.chance(1, 2) => {
                    M::Sub((0..1 + r.below(3)).map(|_| plain_list(r, Cfg { depth: 0, envs: false, ..c.deeper() })).collect())
                }
                17 if c.color => M::Color(
                    r.pick(&["textcolor", "colorbox"]).to_string(),
                    None,
                    r.pick(&["red", "blue", "green"]).to_string(),
                    plain_list(r, Cfg { brackets: false, ..c.deeper() }),
                ),
                _ => leaf(r, c),
            }
        };
        v.push(it);
    }
    v
}

fn texts(r: &mut Rng, c: Cfg) -> Vec<X> {
    let mut v: Vec<X> = (0..1 + r.below(3)).map(|_| X::W(text_word(r))).collect();
    if r.chance(1, 3) {
        let x = match r.below(3) {
            0 => X::F(if r.chance(1, 2) { plain_list(r, c.deeper()) } else { list(r, c.deeper()) }),
            1 => X::Br,
            _ if c.depth > 0 => X::Cmd(r.pick(&names().textual).clone(), texts(r, c.deeper())),
            _ => X::Br,
        };
        let i = r.below(v.len() + 1);
        v.insert(i, x);
    }
    v
}

pub fn text_word(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..1 + r.below(5) {
        s.push(*r.pick(&['a', 'b', 'e', 'i', 'n', 'o', 's', 't', 'T', 'Q']));
    }
    s
}

// ---------------------------------------------------------------- LaTeX spelling

/// Spelling choices: where spaces, line breaks and comments go, whether single-character arguments
/// are braced.
pub struct Tex<'r> {
    pub out: String,
    pub r: &'r mut Rng,
    /// 0: only mandatory separators; 1: spaces; 2: spaces, line breaks, comments
    pub level: usize,
    after_cs: bool,
}

impl<'r> Tex<'r> {
    pub fn new(r: &'r mut Rng, level: usize) -> Self {
        Tex { out: String::new(), r, level, after_cs: false }
    }
    /// optional layout
    pub fn gap(&mut self) {
        if self.level == 0 {
            return;
        }
        let s = match self.r.below(if self.level > 1 { 12 } else { 6 }) {
            0..=1 => " ",
            2 => "  ",
            6 => "\n",
            7 => "\t",
            8 => "%a $ } \\x{ & comment\n",
            9 => " % \\end{x}\n  ",
            10 => "\r\n",
            _ => return,
        };
        self.out.push_str(s);
        self.after_cs = false;
    }
    pub fn put(&mut self, s: &str) {
        if self.after_cs && s.starts_with(|c: char| c.is_ascii_alphabetic() || c == '*' || c == '@') {
            self.out.push(' ');
        }
        self.out.push_str(s);
        self.after_cs = false;
    }
    pub fn cs(&mut self, name: &str) {
        self.put("\\");
        self.out.push_str(name);
        self.after_cs = name.ends_with(|c: char| c.is_ascii_alphabetic());
    }
    pub fn list(&mut self, v: &[M]) {
        self.gap();
        for m in v {
            self.item(m);
            self.gap();
        }
    }
    fn delim(&mut self, d: &str) {
        match d.strip_prefix('\\') {
            Some(n) => self.cs(n),
            None => self.put(d),
        }
    }
    pub fn arg(&mut self, a: &A) {
        match a {
            A::B(v) => {
                self.put("{");
                self.list(v);
                self.put("}");
            }
            A::C(c) => self.put(&c.to_string()),
            A::Cs(n) => self.cs(n),
        }
    }
    pub fn begin(&mut self, n: &str) {
        self.put("\\begin");
        if self.level > 1 && self.r.chance(1, 10) {
            self.out.push_str(self.r.pick(&[" ", "%c\n", "\n "]));
        }
        self.put("{");
        if self.level > 1 && self.r.chance(1, 20) {
            // spaces around the name are not part of it
            self.out.push_str("");
        }
        self.put(n);
        self.put("}");
    }
    pub fn end(&mut self, n: &str) {
        self.put(&format!("\\end{{{n}}}"));
    }
    fn texts(&mut self, v: &[X]) {
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.put(" ");
            }
            match x {
                X::W(s) => self.put(s),
                X::F(v) => {
                    self.put("$");
                    self.list(v);
                    self.put("$");
                }
                X::Br => self.put("\\\\"),
                X::Cmd(n, v) => {
                    self.put(&format!("\\{n}{{"));
                    self.texts(v);
                    self.put("}");
                }
            }
        }
    }
    pub fn rows(&mut self, rows: &[Vec<Vec<M>>], trailing: bool) {
        for (i, row) in rows.iter().enumerate() {
            if i > 0 {
                self.put("\\\\");
            }
            for (j, cell) in row.iter().enumerate() {
                if j > 0 {
                    self.put("&");
                }
                self.list(cell);
            }
        }
        if trailing {
            self.put("\\\\");
            self.gap();
        }
    }
    pub fn item(&mut self, m: &M) {
        match m {
            M::W(s) => self.put(s),
            M::P(c) => self.put(&c.to_string()),
            M::Sym(n) => self.cs(n),
            M::G(v) => {
                self.put("{");
                self.list(v);
                self.put("}");
            }
            M::Cmd(n, args) => {
                self.cs(n);
                for a in args {
                    self.gap();
                    self.arg(a);
                }
            }
            M::Opt(n, o, a) => {
                self.cs(n);
                if let Some(o) = o {
                    self.gap();
                    self.put("[");
                    self.list(o);
                    self.put("]");
                }
                self.gap();
                self.arg(a);
            }
            M::Att(b, ss) => {
                if let Some(b) = b {
                    self.item(b);
                }
                for s in ss {
                    self.gap();
                    match s {
                        S::Prime(n) => self.put(&"'".repeat(*n)),
                        S::Sub(a) => {
                            self.put("_");
                            self.gap();
                            self.arg(a);
                        }
                        S::Sup(a) => {
                            self.put("^");
                            self.gap();
                            self.arg(a);
                        }
                    }
                }
            }
            M::LR(l, v, r) => {
                self.cs("left");
                self.gap();
                self.delim(l);
                self.list(v);
                self.cs("right");
                self.gap();
                self.delim(r);
            }
            M::Infix(n, a, b) => {
                self.list(a);
                self.cs(n);
                self.list(b);
            }
            M::Greedy(n, b) => {
                self.cs(n);
                self.list(b);
            }
            M::Left1(b, n) => {
                self.item(b);
                self.gap();
                self.cs(n);
            }
            M::Env(e) => {
                self.begin(&e.name);
                if let Some(a) = &e.arg {
                    self.gap();
                    self.put("{");
                    self.put(a);
                    self.put("}");
                }
                self.rows(&e.rows, e.trailing);
                self.end(&e.name);
            }
            M::Sub(rows) => {
                self.cs("substack");
                self.gap();
                self.put("{");
                for (i, row) in rows.iter().enumerate() {
                    if i > 0 {
                        self.put("\\\\");
                    }
                    self.list(row);
                }
                self.put("}");
            }
            M::Text(n, ws) => {
                self.cs(n);
                self.gap();
                self.put("{");
                self.texts(ws);
                self.put("}");
            }
            M::NL => self.put("\\\\"),
            M::Color(n, model, color, body) => {
                self.cs(n);
                if let Some(m) = model {
                    self.put(&format!("[{m}]"));
                }
                self.put(&format!("{{{color}}}"));
                self.put("{");
                self.list(body);
                self.put("}");
            }
        }
    }
}

pub fn tex(r: &mut Rng, level: usize, v: &[M]) -> String {
    let mut t = Tex::new(r, level);
    t.list(v);
    t.out
}

// ---------------------------------------------------------------- reference Typst printer

#[derive(Clone, Copy, PartialEq)]
pub enum Ctx {
    Plain,
    Matrix,
    Cases,
    Math,
    Sub,
    Curly,
}

thread_local! {
    /// the table the reference printer takes names from, if not the default one
    pub static OTHER: std::cell::RefCell<Option<CommandSpec>> = const { std::cell::RefCell::new(None) };
}

fn alias_cmd(n: &str) -> String {
    if let Some(a) = OTHER.with(|o| o.borrow().as_ref().map(|s| s.get_cmd(n).and_then(|c| c.alias.clone()).unwrap_or(n.to_string()))) {
        return a;
    }
    spec().get_cmd(n).and_then(|c| c.alias.clone()).unwrap_or(n.to_string())
}
fn alias_env(n: &str) -> String {
    if let Some(a) = OTHER.with(|o| o.borrow().as_ref().map(|s| s.get_env(n).and_then(|c| c.alias.clone()).unwrap_or(n.to_string()))) {
        return a;
    }
    spec().get_env(n).and_then(|c| c.alias.clone()).unwrap_or(n.to_string())
}

pub fn typ(v: &[M]) -> String {
    let mut o = String::new();
    t_list(v, Ctx::Plain, &mut o);
    o
}

fn t_list(v: &[M], cx: Ctx, o: &mut String) {
    for m in v {
        t_item(m, cx, o);
    }
}

fn t_char(c: char, o: &mut String) {
    // `^(a)!` would take the sign into the script
    if c == '!' && !o.ends_with(' ') {
        o.push(' ');
    }
    o.push(c);
    o.push(' ');
}

fn t_mark(c: char, o: &mut String) {
    match c {
        '~' => o.push_str("space.nobreak "),
        '|' | '.' | '<' | '>' => t_char(c, o),
        c => {
            o.push('\\');
            t_char(c, o);
        }
    }
}

fn t_group(v: &[M], cx: Ctx, o: &mut String) {
    let cx = if cx == Ctx::Sub { cx } else { Ctx::Curly };
    if v.is_empty() {
        o.push_str("zws ");
    }
    t_list(v, cx, o);
}

fn t_sym(n: &str, o: &mut String) {
    o.push_str(&alias_cmd(n));
    o.push(' ');
}

fn t_arg(a: &A, cx: Ctx, o: &mut String) {
    match a {
        A::B(v) => t_group(v, cx, o),
        A::C(c) => t_char(*c, o),
        A::Cs(n) => t_sym(n, o),
    }
}

fn t_delim(d: &str, o: &mut String) {
    if d == "." {
        return;
    }
    match d.strip_prefix('\\') {
        Some(n) => t_sym(n, o),
        None => t_mark(d.chars().next().unwrap(), o),
    }
}

fn t_texts(v: &[X], cx: Ctx, o: &mut String) {
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            o.push(' ');
        }
        match x {
            X::W(s) => o.push_str(s),
            X::F(v) => {
                o.push_str("#math.equation(block: false, $");
                t_list(v, cx, o);
                o.push_str("$);");
            }
            X::Br => o.push_str("\\ "),
            X::Cmd(n, v) => {
                o.push_str(&match n.as_str() {
                    "textbf" => "#strong".to_string(),
                    "textit" => "#emph".to_string(),
                    n => alias_cmd(n),
                });
                o.push('[');
                t_texts(v, cx, o);
                o.push_str("];");
            }
        }
    }
}

fn t_item(m: &M, cx: Ctx, o: &mut String) {
    match m {
        M::W(s) => s.chars().for_each(|c| t_char(c, o)),
        M::P(c) => t_mark(*c, o),
        M::Sym(n) => t_sym(n, o),
        M::G(v) => t_group(v, cx, o),
        M::Cmd(n, args) => {
            o.push_str(&alias_cmd(n));
            o.push('(');
            for (i, a) in args.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                t_arg(a, cx, o);
            }
            o.push_str(") ");
        }
        M::Opt(n, op, a) => {
            o.push_str(&alias_cmd(n));
            o.push('(');
            if let Some(v) = op {
                o.push_str("\\[ ");
                t_list(v, cx, o);
                o.push_str("\\] , ");
            }
            t_arg(a, cx, o);
            o.push_str(") ");
        }
        M::Att(b, ss) => {
            match b {
                Some(b) => t_item(b, cx, o),
                None => o.push_str("zws"),
            }
            for s in ss {
                match s {
                    S::Prime(n) => o.push_str(&"'".repeat(*n)),
                    S::Sub(a) => {
                        o.push_str("_(");
                        t_arg(a, cx, o);
                        o.push(')');
                    }
                    S::Sup(a) => {
                        o.push_str("^(");
                        t_arg(a, cx, o);
                        o.push(')');
                    }
                }
            }
            o.push(' ');
        }
        M::LR(l, v, r) => {
            o.push_str("lr(");
            t_delim(l, o);
            t_list(v, cx, o);
            t_delim(r, o);
            o.push_str(") ");
        }
        M::Infix(n, a, b) => {
            o.push_str(&alias_cmd(n));
            o.push('(');
            t_list(a, cx, o);
            o.push_str(", ");
            t_list(b, cx, o);
            o.push_str(") ");
        }
        M::Greedy(n, b) => {
            o.push_str(&alias_cmd(n));
            o.push('(');
            for (i, m) in b.iter().enumerate() {
                t_item(m, cx, o);
                let _ = i;
            }
            o.push_str(") ");
        }
        M::Left1(b, n) => {
            o.push_str(&alias_cmd(n));
            o.push('(');
            t_item(b, cx, o);
            o.push_str(") ");
        }
        M::Env(e) => {
            let k = match spec().get_env(&e.name).map(|e| &e.ctx_feature) {
                Some(ContextFeature::IsMatrix) => Ctx::Matrix,
                Some(ContextFeature::IsCases) => Ctx::Cases,
                _ => Ctx::Math,
            };
            o.push_str(&alias_env(&e.name));
            o.push('(');
            if let Some(a) = &e.arg {
                o.push_str("arg0: ");
                a.chars().for_each(|c| t_char(c, o));
                o.push_str(", ");
                // an empty body has to be something for Typst, behind a named argument
                if k == Ctx::Math && e.rows.iter().all(|r| matches!(&r[..], [] | [_]) && r.iter().all(|c| c.is_empty())) {
                    o.push_str("zws ");
                }
            }
            let nl = |o: &mut String| {
                o.push_str(match k {
                    Ctx::Matrix => "zws ; ",
                    Ctx::Cases => ", ",
                    _ => "\\ ",
                })
            };
            for (i, row) in e.rows.iter().enumerate() {
                if i > 0 {
                    nl(o);
                }
                for (j, cell) in row.iter().enumerate() {
                    if j > 0 {
                        o.push_str(if k == Ctx::Matrix { "zws , " } else { "& " });
                    }
                    t_list(cell, k, o);
                }
            }
            if e.trailing {
                nl(o);
            }
            o.push_str(") ");
        }
        M::Sub(rows) => {
            o.push_str("substack(");
            for (i, row) in rows.iter().enumerate() {
                if i > 0 {
                    o.push_str("\\ ");
                }
                t_list(row, Ctx::Sub, o);
            }
            o.push_str(") ");
        }
        M::Text(n, ws) => {
            o.push_str(&alias_cmd(n));
            o.push('[');
            t_texts(ws, if matches!(cx, Ctx::Matrix | Ctx::Cases | Ctx::Curly) { Ctx::Math } else { cx }, o);
            o.push_str("];");
        }
        M::NL => o.push_str("\\ "),
        M::Color(n, model, color, body) => {
            o.push_str(&alias_cmd(n));
            match model {
                Some(m) => o.push_str(&format!("([{m}], [{color}])[")),
                None => o.push_str(&format!("(none, [{color}])[")),
            }
            o.push('$');
            t_group(body, cx, o);
            o.push_str("$]");
        }
    }
}
