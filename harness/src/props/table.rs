//! Every entry of the command table, at every kind of place (C18).
use crate::cx::*;
use crate::latex::{self, Cfg, Env, A, M, S};
use crate::rng::Rng;
use crate::tree;
use mitex_spec::*;

/// entries that have a form of their own and are decided elsewhere (lists, floats, images,
/// colours, labels, definitions)
const ELSEWHERE: &[&str] = &[
    "item", "label", "tag", "includegraphics", "color", "textcolor", "colorbox", "substack", "left", "right", "begin", "end", "newcommand", "renewcommand", "providecommand",
    "DeclareRobustCommand", "caption", "middle", "toprule", "midrule", "bottomrule", "itemize", "enumerate", "figure", "table", "tabular", "quote", "abstract", "newenvironment", "renewenvironment", "newcommand*", "renewcommand*", "providecommand*", "newenvironment*",
    "renewenvironment*", "DeclareRobustCommand*",
];

pub fn entries() -> &'static Vec<String> {
    static N: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    N.get_or_init(|| {
        let mut v: Vec<String> = latex::spec().items().map(|x| x.0.to_string()).filter(|n| !n.is_empty() && !ELSEWHERE.contains(&n.as_str()) && !n.starts_with("if")).collect();
        v.sort();
        v
    })
}

pub const PLACES: usize = 20;

pub fn exhaustive() -> u64 {
    (entries().len() * PLACES) as u64
}

fn w(s: &str) -> M {
    M::W(s.into())
}

/// uses of an entry, if there are any of its kind
pub fn uses_any(r: &mut Rng, name: &str) -> Vec<Vec<M>> {
    if entries().iter().any(|n| n == name) {
        uses(r, name)
    } else {
        vec![]
    }
}

/// some uses of an entry: each a list of items of its own
pub fn uses(r: &mut Rng, name: &str) -> Vec<Vec<M>> {
    let part = |r: &mut Rng| match r.below(4) {
        0 => vec![w("p")],
        1 => vec![M::Sym("alpha".into()), w("2")],
        2 => vec![],
        _ => {
            let mut c = Cfg::full();
            c.depth = 1;
            c.len = 2;
            c.greedy = false;
            c.infix = false;
            c.brackets = false;
            latex::plain_list(r, c)
        }
    };
    let some = |r: &mut Rng| loop {
        let v = part(r);
        if !v.is_empty() {
            return v;
        }
    };
    match latex::spec().get(name).unwrap() {
        CommandSpecItem::Cmd(c) => {
            let alias = c.alias.clone().unwrap_or(name.to_string());
            match &c.args {
                ArgShape::Right { pattern: ArgPattern::None } => vec![vec![M::Sym(name.into())]],
                ArgShape::Right { pattern: ArgPattern::FixedLenTerm { len } } if alias.starts_with('#') => {
                    vec![vec![M::Text(name.into(), (0..*len).map(|_| latex::X::W(latex::text_word(r))).collect())]]
                }
                ArgShape::Right { pattern: ArgPattern::FixedLenTerm { len } } => {
                    let mut v = vec![];
                    for k in 0..4 {
                        let args = (0..*len)
                            .map(|i| match k {
                                0 => A::B(vec![w("pqr".get(i as usize..=i as usize).unwrap_or("s"))]),
                                1 => A::C("1a2".chars().nth(i as usize).unwrap_or('b')),
                                2 => A::Cs((*r.pick(&["alpha", "to", "infty", "Gamma"])).to_string()),
                                _ => A::B(part(r)),
                            })
                            .collect();
                        v.push(vec![M::Cmd(name.into(), args)]);
                    }
                    v
                }
                ArgShape::Right { pattern: ArgPattern::Greedy } => vec![vec![M::Greedy(name.into(), vec![w("p")])], vec![M::Greedy(name.into(), some(r))], vec![w("q"), M::Greedy(name.into(), some(r))]],
                ArgShape::Right { pattern: ArgPattern::Glob { pattern } } if pattern.0.as_ref() == "{,b}t" && !alias.starts_with('#') => {
                    vec![
                        vec![M::Opt(name.into(), None, A::B(vec![w("p")]))],
                        vec![M::Opt(name.into(), None, A::C('2'))],
                        vec![M::Opt(name.into(), Some(vec![w("n")]), A::B(part(r)))],
                        vec![M::Opt(name.into(), Some(vec![w("3")]), A::Cs("alpha".into()))],
                    ]
                }
                ArgShape::InfixGreedy => vec![vec![M::Infix(name.into(), vec![w("p")], vec![w("q")])], vec![M::Infix(name.into(), some(r), some(r))]],
                ArgShape::Left1 => vec![vec![M::Left1(Box::new(M::Sym("sum".into())), name.into())], vec![w("a"), M::Left1(Box::new(M::Sym("lim".into())), name.into()), w("b")]],
                _ => vec![],
            }
        }
        CommandSpecItem::Env(e) => {
            let arg = match &e.args {
                ArgPattern::FixedLenTerm { len: 1 } if matches!(e.ctx_feature, ContextFeature::IsMath) => Some("2".to_string()),
                ArgPattern::FixedLenTerm { len: 1 } => Some("lcr".to_string()),
                ArgPattern::None => None,
                _ => return vec![],
            };
            if !matches!(e.ctx_feature, ContextFeature::IsMatrix | ContextFeature::IsCases | ContextFeature::IsMath) {
                return vec![];
            }
            let env = |rows: Vec<Vec<Vec<M>>>, t: bool| vec![M::Env(Env { name: name.into(), arg: arg.clone(), rows, trailing: t })];
            vec![
                env(vec![vec![vec![w("p")]]], false),
                env(vec![vec![vec![w("p")], vec![w("q")]], vec![vec![w("r")], vec![w("s")]]], false),
                env(vec![vec![vec![w("p")], some(r)], vec![vec![], vec![w("s")]]], true),
            ]
        }
    }
}

/// put at a place
pub fn place(i: usize, v: Vec<M>) -> Vec<M> {
    let closed = || if v.len() == 1 && !matches!(v[0], M::Infix(..) | M::Greedy(..) | M::W(_)) { v.clone() } else { vec![M::G(v.clone())] };
    let with = |a: Vec<M>, b: Vec<M>| {
        let mut o = a;
        o.extend(closed());
        o.extend(b);
        o
    };
    let one = || Box::new(closed().remove(0));
    match i {
        0 => v,
        1 => with(vec![w("a")], vec![w("b")]),
        2 => with(vec![M::Sym("beta".into())], vec![M::Sym("gamma".into())]),
        3 => vec![M::G(v)],
        4 => vec![M::Cmd("frac".into(), vec![A::B(v), A::B(vec![w("2")])])],
        5 => vec![M::Cmd("overset".into(), vec![A::B(vec![w("x")]), A::B(v)])],
        6 => vec![M::Cmd("hat".into(), vec![A::B(v)])],
        7 => vec![M::Opt("sqrt".into(), Some(v), A::B(vec![w("x")]))],
        8 => vec![M::Opt("sqrt".into(), None, A::B(v))],
        9 => vec![M::Att(Some(one()), vec![S::Sub(A::B(vec![w("1")])), S::Sup(A::C('2'))])],
        10 => vec![M::Att(Some(Box::new(w("x"))), vec![S::Sub(A::B(v))])],
        11 => vec![M::Att(Some(Box::new(w("x"))), vec![S::Prime(1), S::Sup(A::B(v))])],
        12 => vec![M::LR("(".into(), v, "]".into())],
        13 => vec![M::Env(Env { name: "pmatrix".into(), arg: None, rows: vec![vec![vec![w("a")], v.clone()], vec![v, vec![w("d")]]], trailing: false })],
        14 => vec![M::Env(Env { name: "cases".into(), arg: None, rows: vec![vec![v, vec![w("d")]]], trailing: true })],
        15 => vec![M::Env(Env { name: "aligned".into(), arg: None, rows: vec![vec![vec![w("a")], v]], trailing: false })],
        16 => {
            let mut o = vec![w("a")];
            o.push(M::Greedy("bf".into(), closed()));
            o
        }
        17 => vec![M::Infix("over".into(), closed(), vec![w("d")])],
        18 => vec![M::Infix("choose".into(), vec![w("d")], closed())],
        _ => vec![M::Left1(one(), "limits".into())],
    }
}

fn name_of(alias: &str) -> String {
    alias.to_string()
}

fn judge(cx: &mut Cx, name: &str, at: usize, v: &[M], level: usize) {
    let s = latex::tex(&mut cx.rng, level, v);
    cx.about(false, &s);
    let code = latex::typ(v);
    let Ok(want) = tree::math_tree(&code) else {
        cx.eval();
        // what the table declares does not fit here
        if math(&s).ok().is_some_and(|o| tree::math_tree(o).is_ok()) {
            return cx.count("fits after all");
        }
        return cx.fail(format!("declared code does not stand in an argument: \\{name}"), format!("\\{name} at place {at}: {s} would be {code}"));
    };
    cx.eval();
    let doc = cx.rng.chance(1, 4);
    let o = if doc {
        match text(&format!("${s}$")) {
            Out::Ok(o) => match o.strip_prefix("#math.equation(block: false, $").and_then(|o| o.strip_suffix("$);")) {
                Some(o) => Out::Ok(o.to_string()),
                None => return cx.fail(format!("not an equation: \\{name}"), format!("{s} => {o}")),
            },
            o => o,
        }
    } else {
        math(&s)
    };
    match o {
        Out::Ok(o) => match tree::math_tree(&o) {
            Ok(got) if got == want => {
                cx.count(if at == 0 { "entries alone" } else { "entries in places" });
                cx.distinct(&format!("{name} {at} {want}"));
                cx.sample(|| format!("{s} => {o}"));
            }
            Ok(_) => cx.fail(format!("not as declared: \\{}", name_of(name)), format!("latex: {s}\nconverted: {o}\ndeclared: {code}")),
            Err(e) => cx.fail(format!("ill-formed: \\{name}"), format!("latex: {s}\nconverted: {o}\n{e}")),
        },
        o => cx.fail(format!("not converted: \\{name}"), format!("latex: {s}\n{o:?}")),
    }
}

/// commands for text, in running text
fn running(cx: &mut Cx, name: &str) {
    use crate::doc::{self, B, I};
    let Some(c) = latex::spec().get_cmd(name) else { return };
    if !c.alias.as_deref().is_some_and(|a| a.starts_with('#')) || !matches!(c.args, ArgShape::Right { pattern: ArgPattern::FixedLenTerm { len: 1 } }) || matches!(name, "substack" | "label" | "caption" | "tag") {
        return;
    }
    let word = |r: &mut Rng| I::W(format!("w{}", doc::label(r).replace([':', '_', '.', '-'], "")));
    let r = &mut cx.rng;
    let mut inner = vec![word(r)];
    for _ in 0..r.below(3) {
        inner.push(I::Sp);
        inner.push(if r.chance(1, 4) { I::Cmd(name.into(), vec![word(r)]) } else { word(r) });
    }
    let one = I::Cmd(name.into(), inner);
    let one = if r.chance(1, 3) { I::Cmd("emph".into(), vec![one]) } else { one };
    let mut v = vec![word(r), I::Sp, one];
    if r.chance(1, 2) {
        v.push(I::Sp);
    }
    v.push(word(r));
    let level = r.below(3);
    let (s, t) = doc::spell(r, level, &[B::Par(v)]);
    super::docs::judge(cx, &s, &t, true);
}

pub fn case(cx: &mut Cx) {
    let n = entries();
    let (i, at) = if cx.k < exhaustive() { (cx.k as usize % n.len(), cx.k as usize / n.len()) } else { (cx.rng.below(n.len()), cx.rng.below(PLACES)) };
    let name = n[i].clone();
    // nothing but the declared name
    if at == 0 && name.ends_with(|c: char| c.is_ascii_alphabetic()) && matches!(latex::spec().get(&name), Some(CommandSpecItem::Cmd(_))) {
        for x in ["zq", "Q", "@x"] {
            let s = format!("a\\{name}{x}{{b}}{{c}}");
            if latex::spec().get(&format!("{name}{x}")).is_none() {
                cx.about(false, &s);
                cx.eval();
                match math(&s) {
                    Out::Err(_) => cx.count("longer names rejected"),
                    o => cx.fail(format!("longer name accepted: \\{name}"), format!("{s} => {o:?}")),
                }
            }
        }
    }
    // nothing that could bear a script
    let bare = latex::spec().get_cmd(&name).is_some_and(|c| c.alias.as_deref() == Some(""));
    if bare && matches!(at, 9 | 19) {
        return cx.count("decided elsewhere");
    }
    if at < 4 {
        running(cx, &name);
    }
    let us = uses(&mut cx.rng, &name);
    if us.is_empty() {
        return cx.count("decided elsewhere");
    }
    let fresh = cx.k >= exhaustive();
    for u in us {
        let mut v = place(at, u);
        let mut level = 0;
        if fresh {
            // once more around, in any layout
            if cx.rng.chance(1, 2) {
                let p = cx.rng.below(PLACES);
                if !bare || !matches!(p, 9 | 19) {
                    v = place(p, v);
                }
            }
            level = cx.rng.below(3);
        }
        judge(cx, &name, at, &v, level);
    }
}
