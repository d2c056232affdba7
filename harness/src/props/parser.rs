//! The syntax tree: conservation of the text (C04), extents of constructs (C05), argument binding
//! (C06).
use crate::cx::*;
use crate::reflex;
use crate::rng::Rng;
use crate::soup;
use mitex_lexer::{CommandName, Token};
use mitex_parser::syntax::{SyntaxElement, SyntaxKind as K, SyntaxNode};
use mitex_spec::preludes::command::*;
use mitex_spec::*;
use rowan::NodeOrToken;

fn trivia(k: K) -> bool {
    matches!(k, K::TokenLineBreak | K::TokenWhiteSpace | K::TokenComment)
}

pub fn solid_text(n: &SyntaxNode) -> String {
    let mut s = String::new();
    for e in n.descendants_with_tokens() {
        if let NodeOrToken::Token(t) = e {
            if !trivia(t.kind()) {
                s.push_str(t.text());
            }
        }
    }
    s
}

pub fn case(cx: &mut Cx) {
    match cx.prop.as_str() {
        "C04" => conserve(cx),
        "C05" => extents(cx),
        _ => binding(cx),
    }
}

// ---------------------------------------------------------------- C04

fn conserve(cx: &mut Cx) {
    let s = match cx.rng.below(8) {
        0 => soup::repeated(&mut cx.rng, 3000),
        1 => {
            let c = crate::latex::Cfg::full();
            let v = crate::latex::list(&mut cx.rng, c);
            let l = cx.rng.below(3);
            let s = crate::latex::tex(&mut cx.rng, l, &v);
            if cx.rng.chance(1, 2) {
                soup::mutate(&mut cx.rng, &s)
            } else {
                s
            }
        }
        _ => soup::hostile(&mut cx.rng),
    };
    let spec: &CommandSpec = &mitex_spec_gen::DEFAULT_SPEC;
    let toks = reflex::lex(&s, spec);
    let cond = toks.iter().any(|t| matches!(t.kind, Token::CommandName(CommandName::If(_) | CommandName::Else | CommandName::EndIf)));
    let mac = super::c01::has_macro(&s) || s.contains("mitexrecurse");
    if cond {
        cx.count("skipped: conditional");
        return;
    }
    for with_macros in [false, true] {
        if with_macros && mac {
            continue;
        }
        cx.about(!mac, &s);
        let r = guard(|| if with_macros { mitex_parser::parse(&s, spec.clone()) } else { mitex_parser::parse_without_macro(&s, spec.clone()) });
        cx.eval();
        let tree = match r {
            Ok(t) => t,
            Err(p) => {
                cx.fail(format!("panic {p}"), format!("{s:?}"));
                continue;
            }
        };
        if tree.kind() != K::ScopeRoot {
            cx.fail("root is not the scope root", format!("{s:?}: {:?}", tree.kind()));
        }
        let text = tree.text().to_string();
        let mut rest = text.as_str();
        let mut lost = 0u64;
        let mut bad = None;
        for t in &toks {
            let x = &s[t.text.0..t.text.1];
            if let Some(r) = rest.strip_prefix(x) {
                rest = r;
            } else if t.kind.is_trivia() {
                lost += 1;
            } else {
                bad = Some(format!("{:?} {x:?} at byte {} is missing; the tree goes on with {:?}", t.kind, t.start, rest.chars().take(30).collect::<String>()));
                break;
            }
        }
        if bad.is_none() && !rest.is_empty() {
            bad = Some(format!("the tree has more text: {:?}", rest.chars().take(30).collect::<String>()));
        }
        if let Some(b) = bad {
            cx.fail("text not conserved", format!("macros={with_macros} {s:?}\n{b}"));
            continue;
        }
        cx.add("tokens placed", toks.len() as u64 - lost);
        cx.add("trivia between arguments", lost);
        cx.distinct(&s);
        cx.max("input length", s.len() as u64);
        // kinds of leaves
        for e in tree.descendants_with_tokens() {
            if let NodeOrToken::Token(t) = e {
                let x = t.text();
                let ok = match t.kind() {
                    K::TokenWhiteSpace => x.chars().all(|c| c.is_whitespace() && c != '\n' && c != '\r'),
                    K::TokenLineBreak => x.chars().all(|c| c == '\n' || c == '\r'),
                    K::TokenComment => x.starts_with('%') && !x.contains(['\n', '\r']),
                    K::TokenLBrace => x == "{",
                    K::TokenRBrace => x == "}",
                    K::TokenLBracket => x == "[",
                    K::TokenRBracket => x == "]",
                    K::TokenLParen => x == "(",
                    K::TokenRParen => x == ")",
                    K::TokenComma => x == ",",
                    K::TokenAmpersand => x == "&",
                    K::TokenCaret => x == "^",
                    K::TokenUnderscore => x == "_",
                    K::TokenApostrophe => x == "'",
                    K::TokenDollar => x == "$" || x == "$$",
                    K::TokenHash => x == "#",
                    K::ItemNewLine => x == "\\\\",
                    K::ClauseCommandName => x.starts_with('\\'),
                    K::TokenWord => !x.is_empty() && !x.chars().any(|c| c.is_whitespace() || c == '\\' || c == '{' || c == '}' || c == '%' || c == '$'),
                    _ => true,
                };
                if !ok {
                    cx.fail("leaf of the wrong kind", format!("{s:?}: {:?} {x:?}", t.kind()));
                    break;
                }
            }
        }
        cx.sample(|| format!("{s:?}"));
    }
}

// ---------------------------------------------------------------- C05

/// one enclosing construct
#[derive(Clone, Debug, PartialEq)]
enum P {
    Curly,
    Env(String),
    Lr,
    Formula(String),
    Arg(String, usize),
    Script(char),
    Left(String),
    Right(String),
    Before(String),
    Bracket,
}

struct Gen<'r> {
    r: &'r mut Rng,
    s: String,
    n: usize,
    want: Vec<(String, Vec<P>)>,
    path: Vec<P>,
    level: usize,
    /// inside math
    math: bool,
    glue: bool,
}

impl Gen<'_> {
    fn gap(&mut self) {
        if self.level == 0 {
            if std::mem::take(&mut self.glue) {
                self.s.push(' ');
            }
            return;
        }
        let t = *self.r.pick(&["", " ", "\n", "%x }{ $ \\end{a}\n", "  ", "\t"]);
        if t.is_empty() && self.glue {
            self.s.push(' ');
        }
        self.glue = false;
        self.s.push_str(t);
    }
    fn put(&mut self, t: &str) {
        if self.glue && t.starts_with(|c: char| c.is_ascii_alphanumeric()) {
            self.s.push(' ');
        }
        self.glue = false;
        self.s.push_str(t);
    }
    fn cs(&mut self, n: &str) {
        self.put("\\");
        self.s.push_str(n);
        self.glue = true;
    }
    fn mark(&mut self) {
        let m = format!("m{}z", self.n);
        self.n += 1;
        // adjacent words would run together
        if self.s.ends_with(|c: char| c.is_alphanumeric()) {
            self.s.push(' ');
        }
        self.put(&m);
        self.want.push((m, self.path.clone()));
    }
    fn within(&mut self, p: P, f: impl FnOnce(&mut Self)) {
        self.path.push(p);
        f(self);
        self.path.pop();
    }
    fn braced(&mut self, d: usize) {
        self.put("{");
        self.within(P::Curly, |g| g.list(d));
        self.put("}");
    }
    fn arg(&mut self, n: &str, i: usize, d: usize) {
        self.gap();
        self.within(P::Arg(n.into(), i), |g| g.braced(d));
    }
    fn list(&mut self, d: usize) {
        for _ in 0..1 + self.r.below(4) {
            self.gap();
            self.item(d);
        }
        self.gap();
    }
    fn item(&mut self, d: usize) {
        if d == 0 {
            return self.mark();
        }
        let d = d - 1;
        match self.r.below(16) {
            0 | 1 => self.braced(d),
            2 => {
                self.cs("frac");
                self.arg("frac", 0, d);
                self.arg("frac", 1, d);
            }
            3 => {
                self.cs("sqrt");
                let b = self.r.chance(1, 2);
                if b {
                    self.gap();
                    self.path.push(P::Arg("sqrt".into(), 0));
                    self.put("[");
                    self.within(P::Bracket, |g| g.mark());
                    self.put("]");
                    self.path.pop();
                }
                self.arg("sqrt", b as usize, d);
            }
            4 if self.math => {
                self.cs("left");
                let o = *self.r.pick(&["(", "[", ".", "|", "\\{", "\\langle "]);
                self.put(o);
                self.within(P::Lr, |g| g.list(d));
                self.cs("right");
                let o = *self.r.pick(&[")", "]", ".", "|", "\\}", "\\rangle "]);
                self.put(o);
            }
            5 | 6 => {
                let n = self.r.pick(&["matrix", "aligned", "cases", "align*", "equation", "itemize", "quote", "mystery", "pmatrix"]).to_string();
                self.put(&format!("\\begin{{{n}}}"));
                self.path.push(P::Env(n.clone()));
                self.list(d);
                if self.r.chance(1, 2) {
                    self.put("&");
                    self.list(d);
                }
                if self.r.chance(1, 2) {
                    self.put("\\\\");
                    self.list(d);
                }
                self.path.pop();
                self.put(&format!("\\end{{{n}}}"));
            }
            7 if !self.math => {
                let (a, b) = *self.r.pick(&[("$", "$"), ("$$", "$$"), ("\\(", "\\)"), ("\\[", "\\]")]);
                // adjacent dollar signs would be one token
                if self.s.ends_with('$') {
                    self.s.push(' ');
                }
                self.put(a);
                self.path.push(P::Formula(a.into()));
                self.math = true;
                self.list(d);
                self.math = false;
                self.path.pop();
                self.put(b);
            }
            8 | 9 => {
                // a base with one or two scripts
                self.mark();
                let mut first = *self.r.pick(&['_', '^']);
                for _ in 0..1 + self.r.below(2) {
                    self.gap();
                    self.put(&first.to_string());
                    self.gap();
                    self.within(P::Script(first), |g| g.braced(d));
                    first = if first == '_' { '^' } else { '_' };
                }
            }
            10 => {
                // infix within a group of its own
                self.put("{");
                self.path.push(P::Curly);
                let n = self.r.pick(&["over", "choose", "atop"]).to_string();
                self.path.push(P::Left(n.clone()));
                self.list(d);
                self.path.pop();
                self.cs(&n);
                self.path.push(P::Right(n));
                self.list(d);
                self.path.pop();
                self.path.pop();
                self.put("}");
            }
            11 => {
                self.put("{");
                self.path.push(P::Curly);
                self.mark();
                let n = self.r.pick(&["displaystyle", "textstyle", "bf"]).to_string();
                self.cs(&n);
                self.path.push(P::Right(n));
                self.list(d);
                self.path.pop();
                self.path.pop();
                self.put("}");
            }
            12 => {
                self.path.push(P::Before("limits".into()));
                self.braced(d);
                self.path.pop();
                self.cs("limits");
            }
            13 => {
                let n = *self.r.pick(&["alpha", "sum", "to"]);
                self.cs(n);
            }
            _ => self.mark(),
        }
    }
}

fn path_of(t: SyntaxElement) -> Vec<P> {
    let mut v = vec![];
    let mut child = t;
    while let Some(p) = child.parent() {
        match p.kind() {
            K::ItemCurly => v.push(P::Curly),
            K::ItemBracket => v.push(P::Bracket),
            K::ItemEnv => {
                let n = p.children().find(|c| c.kind() == K::ItemBegin).and_then(|b| b.first_token()).map(|t| t.text().to_string()).unwrap_or_default();
                v.push(P::Env(n));
            }
            K::ItemLR => v.push(P::Lr),
            K::ItemFormula => v.push(P::Formula(p.first_token().map(|t| t.text().to_string()).unwrap_or_default())),
            K::ItemAttachComponent => {
                let op = p.children_with_tokens().find_map(|c| match c.kind() {
                    K::TokenUnderscore => Some('_'),
                    K::TokenCaret => Some('^'),
                    _ => None,
                });
                // the base is inside an argument clause
                if child.kind() != K::ClauseArgument {
                    v.push(P::Script(op.unwrap_or('?')));
                }
            }
            K::ItemCmd => {
                let mut name = String::new();
                let mut before = 0;
                let mut idx = 0;
                let mut seen_name = false;
                let mut greedy = false;
                for c in p.children_with_tokens() {
                    if c.kind() == K::ClauseCommandName {
                        name = c.as_token().unwrap().text()[1..].to_string();
                        seen_name = true;
                    } else if c.kind() == K::ClauseArgument {
                        if c == child {
                            before = if seen_name { 2 } else { 1 };
                        } else if before == 0 {
                            idx += 1;
                        }
                    }
                }
                if ["over", "choose", "atop", "displaystyle", "textstyle", "bf"].contains(&name.as_str()) {
                    greedy = true;
                }
                v.push(match (before, greedy) {
                    (1, true) => P::Left(name),
                    (2, true) => P::Right(name),
                    (1, false) => P::Before(name),
                    _ => P::Arg(name, idx),
                });
            }
            _ => {}
        }
        child = SyntaxElement::Node(p);
    }
    v.reverse();
    v
}

fn extents(cx: &mut Cx) {
    let level = cx.rng.below(2);
    let d = 1 + cx.rng.below(5);
    let math = cx.rng.chance(1, 2);
    let mut g = Gen { r: &mut cx.rng, s: String::new(), n: 0, want: vec![], path: vec![], level, math, glue: false };
    g.list(d);
    let (s, want) = (g.s, g.want);
    cx.about(true, &s);
    for with_macros in [false, true] {
        let spec = mitex_spec_gen::DEFAULT_SPEC.clone();
        let r = guard(|| if with_macros { mitex_parser::parse(&s, spec) } else { mitex_parser::parse_without_macro(&s, spec) });
        cx.eval();
        let tree = match r {
            Ok(t) => t,
            Err(p) => return cx.fail(format!("panic {p}"), s),
        };
        let mut got = vec![];
        for e in tree.descendants_with_tokens() {
            if let NodeOrToken::Token(t) = &e {
                if t.kind() == K::TokenWord && t.text().starts_with('m') && t.text().ends_with('z') {
                    got.push((t.text().to_string(), path_of(e.clone())));
                }
                if t.kind() == K::TokenError {
                    return cx.fail("error in a well-formed input", s.clone());
                }
            }
        }
        if got != want {
            let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            return cx.fail("extent differs", format!("macros={with_macros} {s}\nmarker {i}: tree {:?}, source {:?}", got.get(i), want.get(i)));
        }
    }
    cx.add("positions", want.len() as u64);
    cx.max("nesting", want.iter().map(|w| w.1.len()).max().unwrap_or(0) as u64);
    cx.distinct(&format!("{:?}", want.iter().map(|x| &x.1).collect::<Vec<_>>()));
    cx.sample(|| s);
}

// ---------------------------------------------------------------- C06

enum Pat {
    Rand(super::glob::Pattern),
    Upto(u8),
    Glob(&'static str),
}

/// what may follow a command
#[derive(Clone, Debug)]
enum It {
    Gap(&'static str),
    Group(char, String),
    Word(String),
    Other(String),
    /// a script sign or a cell separator: ends the arguments
    Stop(&'static str),
}

/// language of the pattern as a list of words over b, p, t (finite patterns only)
const GLOBS: &[(&str, &[&str])] = &[
    ("t", &["t"]),
    ("tt", &["tt"]),
    ("{,b}t", &["t", "bt"]),
    ("{,b}tt", &["tt", "btt"]),
    ("{,b}{,b}t", &["t", "bt", "bbt"]),
    ("{b,p}t", &["bt", "pt"]),
    ("{,p}{,b}", &["", "p", "b", "pb"]),
    ("{,t}", &["", "t"]),
    ("bt", &["bt"]),
    ("ptb", &["ptb"]),
    ("{bt,tt}t", &["btt", "ttt"]),
    ("[bp]t", &["bt", "pt"]),
    ("{,b,bb}t", &["t", "bt", "bbt"]),
    ("t{,b}", &["t", "tb"]),
    ("b{t,p}{,t}", &["bt", "bp", "btt", "bpt"]),
    ("?t", &["bt", "pt", "tt"]),
    ("{,b}t{,b}t", &["tt", "btt", "tbt", "btbt"]),
];

fn accepts(p: &Pat, kinds: &str) -> bool {
    match p {
        Pat::Rand(p) => p.prefix(kinds),
        Pat::Upto(n) => kinds.len() <= *n as usize && kinds.chars().all(|c| c == 't'),
        Pat::Glob(g) => GLOBS.iter().find(|x| x.0 == *g).unwrap().1.iter().any(|w| w.starts_with(kinds)),
    }
}

fn word(r: &mut Rng) -> String {
    (0..1 + r.below(5)).map(|_| *r.pick(&['a', 'b', 'c', 'd', '1', '2', 'é', '中'])).collect()
}

fn binding(cx: &mut Cx) {
    let r = &mut cx.rng;
    let (pat, item): (Pat, CommandSpecItem) = match r.below(4) {
        0 => {
            let n = r.below(5) as u8;
            (Pat::Upto(n), define_command_with_alias(n, "q"))
        }
        1 => {
            let max = r.below(4) as u8;
            let min = r.below(max as usize + 1) as u8;
            let it = CommandSpecItem::Cmd(CmdShape { args: ArgShape::Right { pattern: ArgPattern::RangeLenTerm { min, max } }, alias: None });
            (Pat::Upto(max), it)
        }
        2 => {
            let g = super::glob::Pattern::random(r);
            let it = define_glob_command(&g.text, "q");
            (Pat::Rand(g), it)
        }
        _ => {
            let g = r.pick(GLOBS).0;
            (Pat::Glob(g), define_glob_command(g, "q"))
        }
    };
    let env = r.chance(1, 5);
    let mut b = SpecBuilder::default();
    if env {
        let args = match &pat {
            Pat::Upto(n) => ArgPattern::FixedLenTerm { len: *n },
            Pat::Glob(g) => ArgPattern::Glob { pattern: (*g).into() },
            Pat::Rand(g) => ArgPattern::Glob { pattern: g.text.as_str().into() },
        };
        b.add_command("q", CommandSpecItem::Env(EnvShape { args, ctx_feature: ContextFeature::IsMath, alias: None }));
    } else {
        b.add_command("q", item);
    }
    b.add_command("sym", TEX_SYMBOL);
    b.add_command("one", TEX_CMD1);
    b.add_command("matrix", TEX_MATRIX_ENV);
    let spec = b.build();
    let pname = match &pat {
        Pat::Upto(n) => format!("at most {n} terms"),
        Pat::Glob(g) => g.to_string(),
        Pat::Rand(g) => g.text.clone(),
    };
    let mut n = 0;
    let mut mk = || {
        n += 1;
        format!("k{n}")
    };
    let items: Vec<It> = (0..r.below(7))
        .map(|_| match r.below(12) {
            0 => It::Gap(*r.pick(&[" ", "\n", "%c }\n", "  "])),
            1..=4 => It::Group('{', mk()),
            5 | 6 => It::Group('[', mk()),
            7 => It::Group('(', mk()),
            8 => It::Word(word(r)),
            9 => It::Other(match r.below(5) {
                0 => "\\sym".to_string(),
                1 => format!("\\one{{{}}}", mk()),
                2 => format!("\\begin{{matrix}}{}\\end{{matrix}}", mk()),
                3 => format!("\\left({}\\right)", mk()),
                _ => "~".to_string(),
            }),
            10 => It::Stop(*r.pick(&["^", "_", "&"])),
            _ => It::Group('{', mk()),
        })
        .collect();
    // adjacent words would be one word, and a word continues a command name
    let mut s = String::new();
    let head = if env { "\\begin{q}" } else { "\\q" };
    s.push_str(head);
    let mut prev_word = !env;
    for it in &items {
        match it {
            It::Gap(g) => s.push_str(g),
            It::Group(o, x) => s.push_str(&format!("{o}{x}{}", match o { '{' => '}', '[' => ']', _ => ')' })),
            It::Word(w) => {
                if prev_word {
                    s.push(' ');
                }
                s.push_str(w);
            }
            It::Other(x) => s.push_str(x),
            It::Stop(x) => s.push_str(x),
        }
        prev_word = matches!(it, It::Word(_)) || matches!(it, It::Other(x) if x == "\\sym");
        if matches!(it, It::Stop("^" | "_")) {
            // a script needs something to take
            s.push_str("{s}");
        }
    }
    // where the command stands
    let (pre, post) = *r.pick(&[("", ""), ("{", "}"), ("\\begin{matrix}u&", "&v\\end{matrix}"), ("\\begin{matrix}", "\\end{matrix}"), ("x ", ""), ("\\left[", "\\right]"), ("$", "$")]);
    // reference binding
    let mut kinds = String::new();
    let mut want: Vec<String> = vec![];
    let mut stop = false;
    for it in &items {
        if stop {
            break;
        }
        let take = |k: char, kinds: &mut String| {
            kinds.push(k);
            accepts(&pat, kinds)
        };
        match it {
            It::Gap(_) => {}
            It::Stop(_) => stop = true,
            It::Group('{', x) => {
                if take('t', &mut kinds) {
                    want.push(format!("{{{x}}}"))
                } else {
                    stop = true
                }
            }
            It::Group(o, x) => match &pat {
                // not a group for such commands: single signs and words
                Pat::Upto(_) => {
                    for t in std::iter::once(o.to_string()).chain(x.chars().map(|c| c.to_string())).chain([if *o == '[' { "]" } else { ")" }.to_string()]) {
                        // the scope of the closing sign does not end here
                        if take('t', &mut kinds) {
                            want.push(t)
                        } else {
                            stop = true;
                            break;
                        }
                    }
                }
                Pat::Glob(_) | Pat::Rand(_) => {
                    if take(if *o == '[' { 'b' } else { 'p' }, &mut kinds) {
                        want.push(format!("{o}{x}{}", if *o == '[' { ']' } else { ')' }))
                    } else {
                        stop = true
                    }
                }
            },
            It::Word(w) => {
                for c in w.chars() {
                    if take('t', &mut kinds) {
                        want.push(c.to_string())
                    } else {
                        stop = true;
                        break;
                    }
                }
            }
            It::Other(x) => {
                if take('t', &mut kinds) {
                    // the text of environment clauses in the tree is the name
                    want.push(x.replace("\\begin{matrix}", "matrix").replace("\\end{matrix}", "matrix"))
                } else {
                    stop = true
                }
            }
        }
    }
    let s = format!("{pre}{s}{}{post}", if env { "\\end{q}" } else { "" });
    cx.about(true, &s);
    let tree = match guard(|| mitex_parser::parse(&s, spec.clone())) {
        Ok(t) => t,
        Err(p) => return cx.fail(format!("panic {p}"), s),
    };
    cx.eval();
    let node = tree.descendants().find(|n| if env { n.kind() == K::ItemBegin && n.first_token().map(|t| t.text() == "q").unwrap_or(false) } else { n.kind() == K::ItemCmd && n.children_with_tokens().any(|c| c.kind() == K::ClauseCommandName && c.as_token().unwrap().text() == "\\q") });
    let Some(node) = node else {
        return cx.fail("command not found", s);
    };
    let got: Vec<String> = node.children().filter(|c| c.kind() == K::ClauseArgument).map(|c| solid_text(&c)).collect();
    // other things must not be inside the command
    if got != want {
        return cx.fail("arguments differ", format!("pattern {pname} env={env}: {s}\nbound {got:?}, expected {want:?}"));
    }
    cx.add("arguments", got.len() as u64);
    cx.count(match pat { Pat::Upto(_) => "up to n terms", Pat::Glob(_) => "table patterns", Pat::Rand(_) => "random patterns" });
    cx.distinct(&format!("{pname}{env}{items:?}{pre}"));
    cx.sample(|| format!("{pname}: {s} binds {got:?}"));
}
