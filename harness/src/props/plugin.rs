//! The plugin and the package's functions (C30, C31).
use super::{macros, meta, spec};
use crate::cx::*;
use crate::rng::Rng;
use crate::typ::*;
use crate::{latex, soup};
use mitex_spec::*;
use typst::foundations::Value;

const HEAD: &str = "#import \"/mitex/lib.typ\": *\n";

fn message(e: &str) -> &str {
    e.split(" [").next().unwrap()
}

/// a source of some kind
pub fn source(cx: &mut Cx, m: bool) -> String {
    match cx.rng.below(8) {
        0 | 1 => soup::hostile(&mut cx.rng),
        2 => macros::any_program(cx),
        _ if m => meta::formula(cx),
        _ => meta::document(cx),
    }
}

fn same(e: &str, want: &Out) -> bool {
    matches!(want, Out::Err(w) if e.strip_prefix("plugin errored with: ").is_some_and(|m| m == w))
}

/// C30
pub fn plugin(cx: &mut Cx) {
    match cx.rng.below(10) {
        0 => deep(cx),
        1 => invalid(cx),
        2 | 3 => tables(cx),
        _ => sequence(cx),
    }
}

/// one call after the other, of both functions, compared with the library
fn sequence(cx: &mut Cx) {
    for _ in 0..4 {
        let m = cx.rng.chance(1, 2);
        let s = source(cx, m);
        let want = if m { math(&s) } else { text(&s) };
        if matches!(want, Out::Panic(_)) {
            continue;
        }
        check(cx, m, &s, "bytes(())", &want);
    }
}

fn check(cx: &mut Cx, m: bool, s: &str, spec: &str, want: &Out) {
    cx.about(false, s);
    let f = if m { "math" } else { "text" };
    let got = W::get().eval(&format!("{HEAD}#let r = str(mitex-wasm.convert_{f}(bytes({}), {spec}))", lit(s)));
    cx.eval();
    match got {
        Ok(v) => match (string(&v, "r"), want) {
            (Some(r), Out::Ok(w)) if r == *w => {
                cx.count("converted");
                cx.distinct(&format!("{f} {s}"));
            }
            (r, w) => cx.fail("another result", format!("{f} {s:?}: plugin {r:?}, library {w:?}")),
        },
        Err(e) if same(message(&e), want) || want.is_err() && e.starts_with("plugin errored with: ") && e.contains(want_err(want)) => {
            cx.count("refused");
            cx.distinct(&format!("{f} {s}"));
        }
        Err(e) => cx.fail("another outcome", format!("{f} {s:?}: plugin {e:?}, library {want:?}")),
    }
}

fn want_err(o: &Out) -> &str {
    match o {
        Out::Err(e) => e,
        _ => "",
    }
}

/// as deep as it gets
fn deep(cx: &mut Cx) {
    let n = *cx.rng.pick(&[20usize, 40, 60, 80, 100, 110, 120, 125, 130, 150, 200, 250, 300, 500, 2000]);
    const PAIRS: &[(&str, &str)] = &[
        ("{", "}"),
        ("[", "]"),
        ("\\left(", "\\right)"),
        ("\\frac{", "}{2}"),
        ("\\sqrt[", "]2"),
        ("\\sqrt{", "}"),
        ("\\begin{matrix}", "\\end{matrix}"),
        ("\\begin{cases}a&", "\\end{cases}"),
        ("x^{", "}"),
        ("{a\\over ", "}"),
        ("{\\displaystyle ", "}"),
        ("\\text{$", "$}"),
        ("\\color{red}", ""),
        ("\\textcolor{red}{", "}"),
        ("x_", ""),
        ("\\hat", ""),
        ("\\iftrue ", "\\fi "),
        ("\\begin{itemize}\\item ", "\\end{itemize}"),
        ("\\textbf{", "}"),
        ("{\\sum\\limits", "}"),
        ("\\substack{", "}"),
        ("\\begin{figure}", "\\end{figure}"),
        ("\\begin{quote}", "\\end{quote}"),
        ("\\newcommand{\\a}{", "}"),
        ("\\[\\text{", "}\\]"),
        ("\\left({\\text{$", "$}}\\right)"),
        ("x\\limits_{", "}"),
        ("{a_{a\\over ", "}}"),
        ("\\begin{aligned}a&\\color{red}", "\\end{aligned}"),
    ];
    let some: Vec<_> = (0..1 + cx.rng.below(4)).map(|_| *cx.rng.pick(PAIRS)).collect();
    let n = n / some.len() + 1;
    let a: String = some.iter().map(|p| p.0).collect();
    let b: String = some.iter().rev().map(|p| p.1).collect();
    let s = format!("{}x{}", a.repeat(n), b.repeat(n));
    for m in [true, false] {
        let want = if m { math(&s) } else { text(&s) };
        if matches!(want, Out::Panic(_)) {
            continue;
        }
        if want.ok().is_some() {
            cx.max("nesting", (n * some.len()) as u64);
        }
        check(cx, m, &s, "bytes(())", &want);
    }
}

/// not text at all
fn invalid(cx: &mut Cx) {
    let s = source(cx, true);
    let mut b = s.into_bytes();
    b.truncate(2000);
    let i = cx.rng.below(b.len() + 1);
    let bad: &[u8] = *cx.rng.pick(&[&[0xff][..], &[0xc3], &[0xe4, 0xb8], &[0xed, 0xa0, 0x80], &[0xf5, 0x80, 0x80, 0x80], &[0xc0, 0x80], &[0x80]]);
    b.splice(i..i, bad.iter().copied());
    if std::str::from_utf8(&b).is_ok() {
        return;
    }
    let f = *cx.rng.pick(&["math", "text"]);
    cx.about(false, &format!("{b:?}"));
    let list: Vec<String> = b.iter().map(|b| b.to_string()).collect();
    let got = W::get().eval(&format!("{HEAD}#let r = mitex-wasm.convert_{f}(bytes(({},)), bytes(()))", list.join(",")));
    cx.eval();
    match got {
        Err(e) if e.starts_with("plugin errored with: ") && e.contains("utf-8") => {
            cx.count("not text, refused");
            cx.distinct(&format!("{b:?}"));
        }
        o => cx.fail("bytes that are not text", format!("{b:?}: {:?}", o.map(|v| value(&v, "r")))),
    }
    // and the plugin goes on
    check(cx, true, "a+\\alpha", "bytes(())", &math("a+\\alpha"));
}

/// tables compiled by the plugin
fn tables(cx: &mut Cx) {
    // no entry, one or a few, or many
    let few = cx.rng.chance(1, 4);
    let mut commands = if few { Default::default() } else { latex_entries(&mut cx.rng) };
    for _ in 0..cx.rng.below(if few { 3 } else { 4 }) {
        let (n, v) = spec::declaration(&mut cx.rng);
        commands.insert(n, v);
    }
    let json = serde_json::to_string(&serde_json::json!({ "commands": commands })).unwrap();
    let table: CommandSpec = serde_json::from_str::<JsonCommandSpec>(&json).unwrap().into();
    cx.about(false, &json);
    let head = format!("{HEAD}#let b = mitex-wasm.compile_spec(bytes({}))", lit(&json));
    let got = W::get().eval(&head).map(|v| value(&v, "b"));
    cx.eval();
    let back = match &got {
        Ok(Some(Value::Bytes(b))) => guard(|| spec::listing(CommandSpec::from_bytes(b.as_slice()).items())),
        o => return cx.fail("a table is not compiled", format!("{json}: {o:?}")),
    };
    if back != Ok(spec::listing(table.items())) {
        return cx.fail("another table", format!("{json}: {back:?}"));
    }
    cx.count("tables");
    for _ in 0..3 {
        let m = cx.rng.chance(2, 3);
        let s = source(cx, m);
        let want = Out::of(guard(|| if m { mitex::convert_math(&s, Some(table.clone())) } else { mitex::convert_text(&s, Some(table.clone())) }));
        if matches!(want, Out::Panic(_)) {
            continue;
        }
        check(cx, m, &s, &format!("mitex-wasm.compile_spec(bytes({}))", lit(&json)), &want);
        // the package's own function hands the table on
        let f = if m { "math" } else { "text" };
        let got = W::get().eval(&format!("{head}\n#let r = mitex-convert({}, mode: \"{f}\", spec: b)", lit(&s)));
        cx.eval();
        match (&got, &want) {
            (Ok(v), Out::Ok(w)) if string(v, "r").as_deref() == Some(w.as_str()) => cx.count("with a table, converted"),
            (Err(e), Out::Err(w)) if e.contains(w.as_str()) => cx.count("with a table, refused"),
            _ => return cx.fail("another outcome of mitex-convert", format!("{f} {s:?} with {json}: {:?}, library {want:?}", got.map(|v| string(&v, "r")))),
        }
    }
    twins(cx, commands);
    // what is no declaration
    let bad = match cx.rng.below(5) {
        0 => json[..json.len() - 1].to_string(),
        1 => "{}".into(),
        2 => "[]".into(),
        3 => json.replacen("\"kind\":\"", "\"kind\":\"no-", 1),
        _ => json.replacen("commands", "command", 1),
    };
    let r = serde_json::from_str::<JsonCommandSpec>(&bad).is_ok();
    let got = W::get().eval(&format!("{HEAD}#let b = mitex-wasm.compile_spec(bytes({}))", lit(&bad)));
    cx.eval();
    match got {
        Ok(_) if r => {}
        Err(e) if !r && e.starts_with("plugin errored with: ") => cx.count("no table, refused"),
        o => cx.fail("what is no table", format!("{bad}: {:?}", o.map(|v| value(&v, "b")))),
    }
}

/// tables of the same size and names, in turn, in one document
fn twins(cx: &mut Cx, commands: serde_json::Map<String, serde_json::Value>) {
    let turn = |k: u8| {
        let mut c = commands.clone();
        for v in c.values_mut() {
            if let Some(a) = v.get_mut("alias") {
                if let Some(x) = a.as_str() {
                    let y: String = x.chars().map(|c| if c.is_ascii_lowercase() { ((c as u8 - b'a' + k) % 26 + b'a') as char } else { c }).collect();
                    *a = y.into();
                }
            }
        }
        serde_json::to_string(&serde_json::json!({ "commands": c })).unwrap()
    };
    let json = [turn(0), turn(1 + cx.rng.below(25) as u8)];
    let table = [0, 1].map(|i: usize| CommandSpec::from(serde_json::from_str::<JsonCommandSpec>(&json[i]).unwrap()));
    let names: Vec<String> = commands.keys().filter(|n| n.len() > 1 && n.chars().all(|c| c.is_ascii_alphabetic()) && !n.starts_with("if")).cloned().collect();
    let s: Vec<String> = (0..2)
        .map(|_| match cx.rng.chance(1, 4) || names.is_empty() {
            true => source(cx, true),
            false => (0..3).map(|_| format!("\\{} {{a}} ", cx.rng.pick(&names))).collect(),
        })
        .collect();
    let mut calls = vec![];
    for _ in 0..5 {
        let (i, j) = (cx.rng.below(2), cx.rng.below(2));
        let want = Out::of(guard(|| mitex::convert_math(&s[j], Some(table[i].clone()))));
        if let Out::Ok(w) = want {
            calls.push((i, j, w));
        }
    }
    let mut doc = format!("{HEAD}#let b0 = mitex-wasm.compile_spec(bytes({}))\n#let b1 = mitex-wasm.compile_spec(bytes({}))\n", lit(&json[0]), lit(&json[1]));
    for (k, (i, j, _)) in calls.iter().enumerate() {
        doc.push_str(&format!("#let r{k} = str(mitex-wasm.convert_math(bytes({}), b{i}))\n", lit(&s[*j])));
    }
    cx.about(true, &doc);
    let got = W::get().eval(&doc);
    cx.eval();
    match got {
        Ok(v) => {
            for (k, (i, j, w)) in calls.iter().enumerate() {
                let r = string(&v, &format!("r{k}"));
                if r.as_deref() != Some(w.as_str()) {
                    return cx.fail("another result behind calls with another table", format!("call {k} of {:?}, {:?} with table {i}: plugin {r:?}, library {w:?}", calls.iter().map(|c| (c.0, c.1)).collect::<Vec<_>>(), s[*j]));
                }
            }
            cx.add("calls with tables in turn", calls.len() as u64);
        }
        Err(e) => cx.fail("calls with tables in turn", e),
    }
}

/// the default table, in part, as declared in JSON
fn latex_entries(r: &mut Rng) -> serde_json::Map<String, serde_json::Value> {
    let one_in = 1 + r.below(4);
    let mut o = serde_json::Map::new();
    for (n, i) in latex::spec().items() {
        if r.chance(1, one_in) {
            o.insert(n.to_string(), spec::json_of(i));
        }
    }
    o
}

/// an argument of the package's functions
fn argument(s: &str, raw: bool) -> String {
    if raw {
        format!("raw({})", lit(s))
    } else {
        lit(s)
    }
}

/// C31
pub fn package(cx: &mut Cx) {
    if cx.rng.chance(1, 8) {
        return refused(cx);
    }
    let m = cx.rng.chance(2, 3);
    let s = if m && cx.rng.chance(1, 2) {
        let c = latex::Cfg { depth: 1 + cx.rng.below(3), ..latex::Cfg::full() };
        let v = latex::list(&mut cx.rng, c);
        let l = cx.rng.below(3);
        latex::tex(&mut cx.rng, l, &v)
    } else if cx.rng.chance(1, 2) {
        let v = crate::doc::doc(&mut cx.rng, crate::doc::DCfg::full());
        let l = cx.rng.below(3);
        crate::doc::spell(&mut cx.rng, l, &v).0.replace(".jpg", ".png").replace(".pdf", ".png")
    } else {
        source(cx, m)
    };
    // (the text of a raw element has its lines ended alike, and tabs set)
    let raw = cx.rng.chance(1, 2) && !s.contains(['\r', '\t', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}']);
    let want = if m { math(&s) } else { text(&s) };
    if matches!(want, Out::Panic(_)) {
        return;
    }
    let a = argument(&s, raw);
    let extra = match cx.rng.below(4) {
        0 => ", numbering: \"(1)\"",
        1 => ", numbering: \"A\", supplement: [S]",
        2 => ", alt: \"t\"",
        _ => "",
    };
    let block = cx.rng.chance(1, 2);
    let (call, form) = if m {
        match cx.rng.below(6) {
            0 => (format!("mi({a}{extra})"), Some((false, extra))),
            1 => (format!("mimath({a}{extra})"), Some((true, extra))),
            2 => (format!("mitex({a}{extra})"), Some((true, extra))),
            3 => (format!("mitex({a}, mode: \"math\"{extra})"), Some((true, extra))),
            4 => (format!("mitex({a}, block: {block}{extra})"), Some((block, extra))),
            _ => (format!("mimath({a}, block: {block}{extra})"), Some((block, extra))),
        }
    } else {
        match cx.rng.below(2) {
            0 => (format!("mitext({a})"), None),
            _ => (format!("mitex({a}, mode: \"text\")"), None),
        }
    };
    cx.about(false, &s);
    let head = format!("{HEAD}#set heading(numbering: \"1.\")\n#set page(width: 300pt, height: auto)\n");
    let got = W::get().compile(&format!("{head}a #{call} b"));
    cx.eval();
    let code = match &want {
        Out::Ok(c) => c,
        Out::Err(w) => {
            match got {
                Err(e) if e.contains(w.as_str()) => {
                    cx.count("refused");
                    cx.distinct(&format!("{call} {s}"));
                }
                o => cx.fail("not refused", format!("{call}: {w:?}, but {:?}", o.map(|d| glyphs(&d)))),
            }
            return;
        }
        Out::Panic(_) => unreachable!(),
    };
    let say = match form {
        // a formula, set by Typst from the code
        Some((b, extra)) => format!("math.equation(block: {b}{extra}, eval({}, scope: mitex-scope))", lit(&format!("${code}$"))),
        None => format!("eval({}, mode: \"markup\", scope: mitex-scope)", lit(code)),
    };
    let exp = W::get().compile(&format!("{head}a #{say} b"));
    // (Typst takes primes at the very end of a formula in another way if they are not before a dollar sign)
    let exp2 = || form.map(|(b, extra)| W::get().compile(&format!("{head}a #math.equation(block: {b}{extra}, eval({}, mode: \"math\", scope: mitex-scope)) b", lit(code))));
    match (got, exp) {
        (Ok(g), Ok(e)) => {
            let (g, e) = (ink(&g), ink(&e));
            if g == e || matches!(exp2(), Some(Ok(x)) if ink(&x) == g) {
                cx.count(if m { "formulas" } else { "documents" });
                cx.distinct(&format!("{call} {s}"));
                cx.sample(|| format!("{call}: {} items drawn", g.len()));
            } else {
                let i = g.iter().zip(&e).take_while(|(a, b)| a == b).count();
                cx.fail("drawn in another way", format!("{call} => {code:?}: {:?} <> {:?}", g.get(i), e.get(i)));
            }
        }
        (Err(g), Err(e)) if message(&g) == message(&e) => cx.count("code that Typst rejects"),
        // the code may not be closed in itself (unclosed comments and strings are C12's)
        (Err(g), Err(_)) if !g.contains("plugin errored") => cx.count("code that Typst rejects"),
        (g, e) => cx.fail("set or not", format!("{call} => {code:?}: {:?} <> {:?}", g.map(|d| glyphs(&d)), e.map(|d| glyphs(&d)))),
    }
}

/// what is no source
fn refused(cx: &mut Cx) {
    let f = *cx.rng.pick(&["mi", "mimath", "mitex", "mitext", "mitex-convert"]);
    let a = *cx.rng.pick(&["1", "none", "auto", "true", "(1, 2)", "(a: 1)", "$a$", "[]", "[a *b*]", "bytes((97,))", "1pt", "[#raw(\"a\") b]", "(it => it)", "table[a]", "", "\"a\", \"b\""]);
    let r = W::get().compile(&format!("{HEAD}#{f}({a})"));
    cx.eval();
    match r {
        Err(_) => {
            cx.count("no source, refused");
            cx.distinct(&format!("{f} {a}"));
        }
        Ok(d) => cx.fail("what is no source", format!("{f}({a}) => {:?}", glyphs(&d))),
    }
    // a text element is one
    let g = W::get().compile(&format!("{HEAD}#mi([abc])#mitext([abc])"));
    cx.eval();
    match g {
        Ok(d) if glyphs(&d).len() > 0 => {}
        o => cx.fail("a text element is refused", format!("{:?}", o.map(|d| glyphs(&d)))),
    }
}

/// what a declaration says, in its long form
fn long(v: &serde_json::Value) -> Result<serde_json::Value, String> {
    use serde_json::{json, Value};
    let s = |k: &str| v.get(k).cloned().filter(|v| !v.is_null()).unwrap_or(Value::Null);
    let cmd = |args: Value, alias: Value| json!({"kind": "cmd", "args": args, "alias": alias});
    let right = |p: Value| json!({"kind": "right", "pattern": p});
    let env = |args: Value, f: &str, alias: Value| json!({"kind": "env", "args": args, "ctx_feature": {"kind": f}, "alias": alias});
    let none = || json!({"kind": "none"});
    let len = |n: u8| json!({"kind": "fixed-len", "len": n});
    let glob = || json!({"kind": "glob", "pattern": s("pattern")});
    Ok(match v["kind"].as_str().unwrap_or("") {
        "sym" => cmd(right(none()), Value::Null),
        "alias-sym" => cmd(right(none()), s("alias")),
        "cmd0" => cmd(right(len(0)), Value::Null),
        "cmd1" => cmd(right(len(1)), Value::Null),
        "cmd2" => cmd(right(len(2)), Value::Null),
        "left1-cmd" => cmd(json!({"kind": "left1"}), Value::Null),
        "greedy-cmd" => cmd(right(json!({"kind": "greedy"})), s("alias")),
        "infix-cmd" => cmd(json!({"kind": "infix-greedy"}), s("alias")),
        "glob-cmd" => cmd(right(glob()), s("alias")),
        "matrix-env" => env(none(), "is-matrix", Value::Null),
        "normal-env" => env(none(), "none", Value::Null),
        "glob-env" => json!({"kind": "env", "args": glob(), "ctx_feature": v["ctx_feature"], "alias": s("alias")}),
        "cmd" => cmd(v["args"].clone(), s("alias")),
        "env" => json!({"kind": "env", "args": v["args"], "ctx_feature": v["ctx_feature"], "alias": s("alias")}),
        k => return Err(format!("kind {k}")),
    })
}

/// C19: the table in the library and in the plugin, and the one in the package's sources
pub fn embedded(cx: &mut Cx) {
    static D: std::sync::OnceLock<serde_json::Map<String, serde_json::Value>> = std::sync::OnceLock::new();
    let d = D.get_or_init(|| {
        let m = W::get().eval("#import \"/mitex/specs/mod.typ\": packages\n#let r = json.encode(packages.map(p => p.spec))").expect("specs");
        let v: Vec<serde_json::Value> = serde_json::from_str(&string(&m, "r").unwrap()).unwrap();
        let mut all = serde_json::Map::new();
        for p in v {
            let commands = p.get("commands").or(p.get("spec").and_then(|s| s.get("commands"))).unwrap_or(&p);
            // (those of later packages are in force)
            all.extend(commands.as_object().unwrap().clone());
        }
        all
    });
    let table = latex::spec();
    let mut names: Vec<&str> = d.keys().map(|k| k.as_str()).chain(table.items().map(|i| i.0)).collect();
    names.sort();
    names.dedup();
    let Some(name) = names.get(cx.k as usize) else { return };
    cx.about(false, name);
    cx.eval();
    let (want, got) = (d.get(*name), table.get(name));
    match (want.map(long), got.map(spec::json_of)) {
        (Some(Ok(w)), Some(g)) if w == g => {
            cx.count("entries");
            cx.distinct(name);
            cx.sample(|| format!("{name}: {g}"));
        }
        (w, g) => return cx.fail("the table in the library is not the declared one", format!("{name}: declared {w:?}, in the library {g:?}")),
    }
    // the plugin has the same one
    let mut us: Vec<String> = super::table::uses_any(&mut cx.rng, name).iter().map(|u| latex::tex(&mut Rng::new(cx.seed), 0, u)).collect();
    us.push(format!("\\{name}"));
    us.push(format!("\\{name}{{a}}{{b}}"));
    us.push(format!("\\begin{{{name}}}a\\end{{{name}}}"));
    for s in us {
        for m in [true, false] {
            let want = if m { math(&s) } else { text(&s) };
            if !matches!(want, Out::Panic(_)) {
                check(cx, m, &s, "bytes(())", &want);
            }
        }
    }
}
