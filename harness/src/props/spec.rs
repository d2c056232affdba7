//! Command tables: their binary and JSON forms (C20), and that the given one is used (C21).
use super::{macros, meta};
use crate::cx::*;
use crate::rng::Rng;
use crate::{latex, reflex, tree};
use mitex_lexer::{CommandName as C, Token as T};
use mitex_spec::preludes::command::*;
use mitex_spec::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};

fn word(r: &mut Rng) -> String {
    let n = match r.below(10) {
        0 => 0,
        1 => 20 + r.below(300),
        _ => 1 + r.below(12),
    };
    (0..n).map(|_| *r.pick(&['a', 'b', 'Z', '*', '@', '1', '.', '#', ' ', '\\', '"', 'é', '中', '\u{1F600}', '\0', '\n'])).collect()
}

fn pattern(r: &mut Rng) -> (ArgPattern, Value) {
    match r.below(6) {
        0 => (ArgPattern::None, json!({"kind": "none"})),
        1 | 2 => {
            let len = *r.pick(&[0u8, 1, 2, 3, 9, 10, 100, 255]);
            (ArgPattern::FixedLenTerm { len }, json!({"kind": "fixed-len", "len": len}))
        }
        3 => {
            let (min, max) = (r.below(256) as u8, r.below(256) as u8);
            (ArgPattern::RangeLenTerm { min, max }, json!({"kind": "range-len", "min": min, "max": max}))
        }
        4 => (ArgPattern::Greedy, json!({"kind": "greedy"})),
        _ => {
            let p = glob(r);
            (ArgPattern::Glob { pattern: p.as_str().into() }, json!({"kind": "glob", "pattern": p}))
        }
    }
}

fn feature(r: &mut Rng) -> (ContextFeature, Value) {
    match r.below(8) {
        0 => (ContextFeature::None, json!({"kind": "none"})),
        1 => (ContextFeature::IsMath, json!({"kind": "is-math"})),
        2 => (ContextFeature::IsMatrix, json!({"kind": "is-matrix"})),
        3 => (ContextFeature::IsCases, json!({"kind": "is-cases"})),
        4 => (ContextFeature::IsFigure, json!({"kind": "is-figure"})),
        5 => (ContextFeature::IsTable, json!({"kind": "is-table"})),
        6 => (ContextFeature::IsItemize, json!({"kind": "is-itemize"})),
        _ => (ContextFeature::IsEnumerate, json!({"kind": "is-enumerate"})),
    }
}

/// a glob pattern, like those of the table and quite other ones
fn glob(r: &mut Rng) -> String {
    match r.below(4) {
        0 => word(r),
        1 => super::glob::Pattern::random(r).text,
        _ => (0..r.below(5)).map(|_| *r.pick(&["t", "t", "b", "p", "{,b}", "{,p}", "{,t}", "*", "?", "[bp]"])).collect(),
    }
}

/// an entry: what it is, and how it is declared
fn entry(r: &mut Rng) -> (CommandSpecItem, Value) {
    let alias = |r: &mut Rng| if r.chance(1, 3) { None } else { Some(word(r)) };
    let cmd = |args, alias| CommandSpecItem::Cmd(CmdShape { args, alias });
    match r.below(16) {
        0 | 1 => {
            let (p, v) = pattern(r);
            let a = alias(r);
            (cmd(ArgShape::Right { pattern: p }, a.clone()), json!({"kind": "cmd", "args": {"kind": "right", "pattern": v}, "alias": a}))
        }
        2 => {
            let a = alias(r);
            (cmd(ArgShape::Left1, a.clone()), json!({"kind": "cmd", "args": {"kind": "left1"}, "alias": a}))
        }
        3 => {
            let a = alias(r);
            (cmd(ArgShape::InfixGreedy, a.clone()), json!({"kind": "cmd", "args": {"kind": "infix-greedy"}, "alias": a}))
        }
        4 | 5 => {
            let (p, v) = pattern(r);
            let (c, f) = feature(r);
            let a = alias(r);
            (CommandSpecItem::Env(EnvShape { args: p, ctx_feature: c, alias: a.clone() }), json!({"kind": "env", "args": v, "ctx_feature": f, "alias": a}))
        }
        6 => (cmd(ArgShape::Right { pattern: ArgPattern::None }, None), json!({"kind": "sym"})),
        7 => (cmd(ArgShape::Right { pattern: ArgPattern::FixedLenTerm { len: 0 } }, None), json!({"kind": "cmd0"})),
        8 => (cmd(ArgShape::Right { pattern: ArgPattern::FixedLenTerm { len: 1 } }, None), json!({"kind": "cmd1"})),
        9 => (cmd(ArgShape::Right { pattern: ArgPattern::FixedLenTerm { len: 2 } }, None), json!({"kind": "cmd2"})),
        10 => (cmd(ArgShape::Left1, None), json!({"kind": "left1-cmd"})),
        11 => {
            let m = r.chance(1, 2);
            (
                CommandSpecItem::Env(EnvShape { args: ArgPattern::None, ctx_feature: if m { ContextFeature::IsMatrix } else { ContextFeature::None }, alias: None }),
                json!({"kind": if m { "matrix-env" } else { "normal-env" }}),
            )
        }
        12 => {
            let (p, a) = (glob(r), word(r));
            let (c, f) = feature(r);
            (
                CommandSpecItem::Env(EnvShape { args: ArgPattern::Glob { pattern: p.as_str().into() }, ctx_feature: c, alias: Some(a.clone()) }),
                json!({"kind": "glob-env", "pattern": p, "alias": a, "ctx_feature": f}),
            )
        }
        13 => {
            let a = word(r);
            (cmd(ArgShape::Right { pattern: ArgPattern::None }, Some(a.clone())), json!({"kind": "alias-sym", "alias": a}))
        }
        14 => {
            let a = word(r);
            let i = r.chance(1, 2);
            (
                cmd(if i { ArgShape::InfixGreedy } else { ArgShape::Right { pattern: ArgPattern::Greedy } }, Some(a.clone())),
                json!({"kind": if i { "infix-cmd" } else { "greedy-cmd" }, "alias": a}),
            )
        }
        _ => {
            let (p, a) = (glob(r), word(r));
            (cmd(ArgShape::Right { pattern: ArgPattern::Glob { pattern: p.as_str().into() } }, Some(a.clone())), json!({"kind": "glob-cmd", "pattern": p, "alias": a}))
        }
    }
}

/// a declaration of any kind
pub fn declaration(r: &mut Rng) -> (String, Value) {
    let n = word(r);
    let v = entry(r).1;
    (n, v)
}

fn json_pattern(p: &ArgPattern) -> Value {
    match p {
        ArgPattern::None => json!({"kind": "none"}),
        ArgPattern::FixedLenTerm { len } => json!({"kind": "fixed-len", "len": len}),
        ArgPattern::RangeLenTerm { min, max } => json!({"kind": "range-len", "min": min, "max": max}),
        ArgPattern::Greedy => json!({"kind": "greedy"}),
        ArgPattern::Glob { pattern } => json!({"kind": "glob", "pattern": pattern.0.to_string()}),
    }
}

/// an entry, declared
pub fn json_of(i: &CommandSpecItem) -> Value {
    match i {
        CommandSpecItem::Cmd(c) => {
            let args = match &c.args {
                ArgShape::Right { pattern } => json!({"kind": "right", "pattern": json_pattern(pattern)}),
                ArgShape::Left1 => json!({"kind": "left1"}),
                ArgShape::InfixGreedy => json!({"kind": "infix-greedy"}),
            };
            json!({"kind": "cmd", "args": args, "alias": c.alias})
        }
        CommandSpecItem::Env(e) => {
            let f = match e.ctx_feature {
                ContextFeature::None => "none",
                ContextFeature::IsMath => "is-math",
                ContextFeature::IsMatrix => "is-matrix",
                ContextFeature::IsCases => "is-cases",
                ContextFeature::IsFigure => "is-figure",
                ContextFeature::IsTable => "is-table",
                ContextFeature::IsItemize => "is-itemize",
                ContextFeature::IsEnumerate => "is-enumerate",
            };
            json!({"kind": "env", "args": json_pattern(&e.args), "ctx_feature": {"kind": f}, "alias": e.alias})
        }
    }
}

/// the entries of a table, for comparisons
pub fn listing<'a>(i: impl Iterator<Item = (&'a str, &'a CommandSpecItem)>) -> BTreeMap<String, String> {
    i.map(|(n, i)| (n.to_string(), format!("{i:?}"))).collect()
}

fn differs(a: &BTreeMap<String, String>, b: &BTreeMap<String, String>) -> String {
    for (n, i) in a {
        if b.get(n) != Some(i) {
            return format!("{n:?}: {i} became {:?}", b.get(n));
        }
    }
    format!("{:?} more", b.keys().find(|k| !a.contains_key(*k)))
}

/// C20
pub fn forms(cx: &mut Cx) {
    let n = *cx.rng.pick(&[0usize, 1, 2, 3, 5, 8, 20, 60]);
    let mut want: HashMap<String, CommandSpecItem> = HashMap::new();
    let mut decl = serde_json::Map::new();
    for _ in 0..n {
        let name = word(&mut cx.rng);
        let (i, v) = entry(&mut cx.rng);
        want.insert(name.clone(), i);
        decl.insert(name, v);
    }
    let all = listing(want.iter().map(|(n, i)| (n.as_str(), i)));
    cx.about(true, &format!("{all:?}"));
    // built in Rust
    let mut b = SpecBuilder::default();
    for (n, i) in &want {
        b.add_command(n, i.clone());
    }
    let table = b.build();
    cx.eval();
    cx.distinct(&format!("{all:?}"));
    if listing(table.items()) != all {
        return cx.fail("a built table has other entries", differs(&all, &listing(table.items())));
    }
    for (n, i) in &want {
        let (c, e) = (matches!(i, CommandSpecItem::Cmd(_)), matches!(i, CommandSpecItem::Env(_)));
        if table.get(n).map(|x| format!("{x:?}")) != Some(format!("{i:?}")) || table.get_cmd(n).is_some() != c || table.get_env(n).is_some() != e {
            return cx.fail("looking up an entry", format!("{n:?} in {all:?}"));
        }
    }
    let no = format!("{}zq", word(&mut cx.rng));
    if !want.contains_key(&no) && (table.get(&no).is_some() || table.get_cmd(&no).is_some() || table.get_env(&no).is_some()) {
        return cx.fail("an entry that is not there", no);
    }
    // the binary form, at any place in memory
    let bytes = table.to_bytes();
    let off = cx.rng.below(17);
    let mut at = vec![0xA5u8; off];
    at.extend_from_slice(&bytes);
    for checked in [true, false] {
        let back = guard(|| if checked { CommandSpec::from_bytes(&at[off..]) } else { unsafe { CommandSpec::from_bytes_unchecked(&at[off..]) } });
        cx.eval();
        match back {
            Ok(t) if listing(t.items()) == all => cx.count("binary forms read back"),
            Ok(t) => return cx.fail("the binary form has other entries", differs(&all, &listing(t.items()))),
            Err(p) => return cx.fail("the binary form is not read", format!("offset {off}: {p}: {all:?}")),
        }
    }
    // the declared form
    let text = serde_json::to_string(&json!({ "commands": decl })).unwrap();
    let read = guard(|| serde_json::from_str::<JsonCommandSpec>(&text).map(CommandSpec::from).map_err(|e| e.to_string()));
    cx.eval();
    match read {
        Ok(Ok(t)) if listing(t.items()) == all => cx.count("declarations read"),
        Ok(Ok(t)) => return cx.fail("the declared table has other entries", differs(&all, &listing(t.items()))),
        o => return cx.fail("the declared table is not read", format!("{:?}: {text}", o.map(|o| o.map(|_| ())))),
    }
    // damaged bytes are refused, or a table, but nothing else
    for _ in 0..3 {
        let mut d = bytes.clone();
        for _ in 0..1 + cx.rng.below(4) {
            if d.is_empty() {
                break;
            }
            // most often where the structure is
            let i = if cx.rng.chance(1, 2) { d.len() - 1 - cx.rng.below(d.len().min(64)) } else { cx.rng.below(d.len()) };
            match cx.rng.below(5) {
                0 => d.truncate(i),
                1 => d[i] ^= 1 << cx.rng.below(8),
                2 => d[i] = *cx.rng.pick(&[0u8, 1, 0x7f, 0x80, 0xff]),
                3 => {
                    d.remove(i);
                }
                _ => d.insert(i, cx.rng.next() as u8),
            }
        }
        let off = cx.rng.below(17);
        let mut at = vec![0x5Au8; off];
        at.extend_from_slice(&d);
        cx.about(true, &format!("damaged table, offset {off}: {d:?}"));
        let r = guard(|| {
            let t = CommandSpec::from_bytes(&at[off..]);
            // it is as good as any
            let l = listing(t.items()).len();
            let o = mitex::convert_math("\\a b \\alpha{x}[y]_1 \\begin{b}a\\end{b}", Some(t));
            (l, o.is_ok())
        });
        cx.eval();
        cx.count(match r {
            Ok(_) => "damaged forms that are a table",
            Err(_) => "damaged forms refused",
        });
    }
    cx.sample(|| format!("{} entries, {} bytes, read at offset {off}; declared as {text}", want.len(), bytes.len()));
}

/// commands with a handling of their own, by name
const FIXED: &[&str] = &[
    "item", "label", "includegraphics", "color", "textcolor", "colorbox", "textbf", "textit", "caption", "left", "right", "begin", "end", "else", "fi", "middle", "newcommand", "renewcommand", "providecommand",
    "newenvironment", "renewenvironment", "DeclareRobustCommand", "relax", "operatorname", "tag", "centering", "toprule", "midrule", "bottomrule", "hline", "cline", "multicolumn",
];

/// C21
pub fn honoured(cx: &mut Cx) {
    match cx.rng.below(3) {
        0 => renamed(cx),
        1 => realiased(cx),
        _ => removed(cx),
    }
}

fn free(n: &str) -> bool {
    n.len() > 1 && n.chars().all(|c| c.is_ascii_alphabetic()) && !FIXED.contains(&n) && !n.starts_with("if")
}

/// other names for the commands of the table
fn renamed(cx: &mut Cx) {
    let m = cx.rng.chance(1, 2);
    let s = match cx.rng.below(4) {
        0 => macros::any_program(cx),
        _ if m => meta::formula(cx),
        _ => meta::document(cx),
    };
    if s.contains("mitexrec") || s.contains("iftypst") || s.contains("includegraphics") || s.contains("textwidth") || s.contains("textheight") || s.len() > 2000 {
        return;
    }
    let v = reflex::lex(&s, latex::spec());
    // the new names of what occurs
    let mut map: BTreeMap<String, String> = BTreeMap::new();
    let mut out = String::new();
    let mut last = 0;
    let mut used = false;
    for t in &v {
        let (a, b) = match t.kind {
            T::CommandName(C::Generic) => (t.start + 1, t.end),
            T::CommandName(C::BeginEnvironment | C::EndEnvironment) => t.text,
            _ => continue,
        };
        if a < last || b > s.len() || a > b {
            return;
        }
        let name = &s[a..b];
        if !free(name) || latex::spec().get(name).is_none() {
            continue;
        }
        used |= !matches!(t.kind, T::CommandName(C::EndEnvironment));
        let k = map.len();
        let new = map.entry(name.to_string()).or_insert_with(|| format!("zz{}{}", name.chars().rev().collect::<String>(), (b'A' + (k % 26) as u8) as char)).clone();
        out.push_str(&s[last..a]);
        out.push_str(&new);
        last = b;
    }
    out.push_str(&s[last..]);
    if map.is_empty() || s.contains("newenvironment") && map.keys().any(|n| out.contains(&format!("{{{n}}}"))) {
        return;
    }
    let mut b = SpecBuilder::default();
    for (n, i) in latex::spec().items() {
        let mut i = i.clone();
        match &mut i {
            CommandSpecItem::Cmd(c) => c.alias = Some(c.alias.clone().unwrap_or(n.to_string())),
            CommandSpecItem::Env(c) => c.alias = Some(c.alias.clone().unwrap_or(n.to_string())),
        }
        b.add_command(map.get(n).map(|x| x.as_str()).unwrap_or(n), i);
    }
    let table = b.build();
    cx.about(false, &out);
    let (want, got) = if m { (math(&s), math_spec(&out, &table)) } else { (text(&s), text_spec(&out, &table)) };
    cx.eval();
    let same = match (&want, &got) {
        // (labels are literal)
        (Out::Ok(a), Out::Ok(b)) => *a == map.iter().fold(b.clone(), |b, (n, k)| b.replace(k.as_str(), n)),
        (Out::Err(_), Out::Err(_)) => true,
        _ => false,
    };
    if !same {
        return cx.fail("names matter", format!("math={m} {s:?} => {want:?}\nwith other names {out:?} => {got:?}"));
    }
    cx.count(if want.is_err() { "renamed, rejected" } else { "renamed, converted" });
    cx.distinct(&out);
    cx.sample(|| format!("{out} => {got:?}"));
    // the new names are the table's, not the library's
    let d = if m { math(&out) } else { text(&out) };
    if used && plain_options(&s) && want.ok().is_some() && d.ok().is_some() && !s.contains("\\label") && !s.contains("\\iffalse") && !s.contains("\\iftypst") && !super::c01::has_macro(&s) && !s.contains("\\else") && !s.contains("\\includegraphics") {
        cx.fail("commands of another table are known", format!("math={m} {out:?} => {d:?}"));
    }
}

/// other code for the commands of the table
fn realiased(cx: &mut Cx) {
    let mut b = SpecBuilder::default();
    let salt = cx.rng.below(1000);
    for (n, i) in latex::spec().items() {
        let mut i = i.clone();
        let (alias, fixed) = match &mut i {
            CommandSpecItem::Cmd(c) => {
                let g = matches!(c.args, ArgShape::Right { pattern: ArgPattern::Greedy });
                (&mut c.alias, g)
            }
            CommandSpecItem::Env(c) => (&mut c.alias, !matches!(c.ctx_feature, ContextFeature::IsMatrix | ContextFeature::IsCases | ContextFeature::IsMath)),
        };
        let a = alias.clone().unwrap_or(n.to_string());
        if !fixed && free(n) && n != "substack" && a.len() > 1 && a.chars().all(|c| c.is_ascii_alphabetic()) && (fnv(n) as usize + salt) % 3 != 0 {
            *alias = Some(format!("{a}{}", ["x", "zq", "Alias"][(fnv(n) as usize + salt) % 3]));
        }
        b.add_command(n, i);
    }
    let table = b.build();
    let c = latex::Cfg { depth: 3, text: false, ..latex::Cfg::full() };
    let v = latex::list(&mut cx.rng, c);
    let level = cx.rng.below(3);
    let s = latex::tex(&mut cx.rng, level, &v);
    cx.about(false, &s);
    latex::OTHER.with(|o| *o.borrow_mut() = Some(table.clone()));
    let code = latex::typ(&v);
    latex::OTHER.with(|o| *o.borrow_mut() = None);
    let Ok(want) = tree::math_tree(&code) else { return cx.count("reference rejected") };
    let doc = cx.rng.chance(1, 4);
    let o = if doc { text_spec(&format!("${s}$"), &table) } else { math_spec(&s, &table) };
    let want = if doc {
        match tree::text_tree(&format!("#math.equation(block: false, ${code}$);")) {
            Ok(w) => w,
            Err(_) => return,
        }
    } else {
        want
    };
    cx.eval();
    match o.ok().map(|o| if doc { tree::text_tree(o) } else { tree::math_tree(o) }) {
        Some(Ok(t)) if t == want => {
            cx.count("other code as declared");
            cx.distinct(&format!("{salt} {s}"));
        }
        t => cx.fail("not the code that the table declares", format!("{s:?} => {o:?}\ntree {t:?}\nexpected {code}")),
    }
}

/// nothing is used inside what can be an option
fn plain_options(s: &str) -> bool {
    s.match_indices('[').all(|(i, _)| match s[i + 1..].find(']') {
        Some(e) => !s[i + 1..i + 1 + e].contains(['\\', '{', '%']),
        None => false,
    })
}

/// what the converter reads itself, without the table
const OWN: &[&str] = &["left", "right", "begin", "end", "else", "fi", "newcommand", "renewcommand", "providecommand", "newenvironment", "renewenvironment", "DeclareRobustCommand", "mitexrecurse", "[", "]", "(", ")", "\\"];

/// the default table without some entries, with others, and with other declarations of the same
pub fn strange(r: &mut Rng) -> CommandSpec {
    let mut b = SpecBuilder::default();
    let (drop, change) = (r.below(20), r.below(20));
    for (n, i) in latex::spec().items() {
        if r.chance(drop, 40) {
            continue;
        }
        if r.chance(change, 40) {
            let (mut j, _) = entry(r);
            if r.chance(1, 2) {
                // the kind stays
                while matches!(i, CommandSpecItem::Cmd(_)) != matches!(j, CommandSpecItem::Cmd(_)) {
                    j = entry(r).0;
                }
            }
            b.add_command(n, j);
        } else {
            b.add_command(n, i.clone());
        }
    }
    b.build()
}

/// fewer commands
fn removed(cx: &mut Cx) {
    let m = cx.rng.chance(2, 3);
    let s = if m { meta::formula(cx) } else { meta::document(cx) };
    if s.contains("\\iffalse") || s.contains("\\else") || s.contains("\\iftypst") || super::c01::has_macro(&s) || s.contains("mitexrec") {
        return;
    }
    // (an option is taken as it is, and so are a label and a path)
    let plain = |c: &str| s.split(c).skip(1).all(|r| r.starts_with('{') && r[1..].find(['{', '}', '\\']).is_some_and(|i| r[1 + i..].starts_with('}')));
    if !plain_options(&s) || !plain("\\label") {
        return;
    }
    let o = if m { math(&s) } else { text(&s) };
    if o.ok().is_none() {
        return;
    }
    let v = reflex::lex(&s, latex::spec());
    let names: Vec<(&str, bool)> = v
        .iter()
        .filter_map(|t| match t.kind {
            T::CommandName(C::Generic) => Some((&s[t.start + 1..t.end], false)),
            T::CommandName(C::BeginEnvironment) => Some((&s[t.text.0..t.text.1], true)),
            _ => None,
        })
        .filter(|n| !n.0.is_empty() && !OWN.contains(&n.0) && !(n.0.ends_with('*') && latex::spec().get(n.0.trim_end_matches('*')).is_some()) && latex::spec().get(n.0).is_some())
        .collect();
    if names.is_empty() {
        return;
    }
    let (name, env) = *cx.rng.pick(&names);
    let mut b = SpecBuilder::default();
    for (n, i) in latex::spec().items() {
        if n != name {
            b.add_command(n, i.clone());
        }
    }
    let table = b.build();
    cx.about(false, &s);
    let got = if m { math_spec(&s, &table) } else { text_spec(&s, &table) };
    cx.eval();
    match &got {
        Out::Err(e) if e.contains("unknown") => {
            cx.count(if env { "environments that the table does not have" } else { "commands that the table does not have" });
            cx.distinct(&format!("{name} {s}"));
        }
        got => cx.fail("a command that the table does not have", format!("without {name}: {s:?} => {got:?}")),
    }
}
