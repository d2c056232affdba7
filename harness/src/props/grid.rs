//! The shape of matrices, cases and aligned formulas (C15).
use super::meta::part;
use crate::cx::*;
use crate::{latex, tree};
use mitex_spec::*;
use typst_syntax::{SyntaxKind as K, SyntaxNode};

fn find<'a>(n: &'a SyntaxNode, name: &str) -> Option<&'a SyntaxNode> {
    if n.kind() == K::FuncCall && n.children().next().is_some_and(|c| c.clone().into_text() == name) {
        return Some(n);
    }
    n.children().find_map(|c| find(c, name))
}

/// split at a kind of token; the pieces as code
fn split<'a>(c: impl Iterator<Item = &'a SyntaxNode>, at: &[K]) -> Vec<String> {
    let mut v = vec![String::new()];
    for x in c {
        if at.contains(&x.kind()) {
            v.push(String::new());
        } else {
            v.last_mut().unwrap().push_str(&x.clone().into_text());
        }
    }
    v
}

/// without the empty markers that the converter puts at the end of a cell
fn bare(s: &str) -> String {
    let mut t = s.trim();
    while let Some(x) = t.strip_suffix("zws") {
        t = x.trim_end();
    }
    t.to_string()
}

type Grid = Vec<Vec<String>>;

fn shape(call: &SyntaxNode, f: &ContextFeature, named: &mut Option<String>) -> Result<Grid, String> {
    let args = call.children().find(|c| c.kind() == K::Args).ok_or("no arguments")?;
    let mut body: Vec<&SyntaxNode> = args.children().filter(|c| !matches!(c.kind(), K::LeftParen | K::RightParen | K::Space)).collect();
    if body.first().is_some_and(|c| c.kind() == K::Named) {
        let t = body[0].clone().into_text().to_string();
        *named = Some(t.split_once(':').unwrap().1.chars().filter(|c| !c.is_whitespace()).collect());
        if body.get(1).is_some_and(|c| c.kind() != K::Comma) {
            return Err("no comma after the named argument".into());
        }
        body.drain(..2.min(body.len()));
    }
    let mut rows: Grid = vec![];
    let math = |s: &str| typst_syntax::parse_math(s);
    match f {
        ContextFeature::IsMatrix => {
            if body.iter().any(|c| c.kind() == K::Array) {
                for c in &body {
                    match c.kind() {
                        K::Array => rows.push(split(c.children(), &[K::Comma])),
                        K::Semicolon => {}
                        k => return Err(format!("{k:?} between the rows")),
                    }
                }
            } else {
                rows.push(split(body.into_iter(), &[K::Comma]));
            }
        }
        ContextFeature::IsCases => {
            for r in split(body.into_iter(), &[K::Comma]) {
                rows.push(split(math(&r).children(), &[K::MathAlignPoint]));
            }
        }
        _ => {
            let all = split(body.into_iter(), &[]);
            for r in split(math(&all[0]).children(), &[K::Linebreak]) {
                rows.push(split(math(&r).children(), &[K::MathAlignPoint]));
            }
        }
    }
    // a row that was only opened (an empty group is printed)
    if rows.len() > 1 && rows.last().unwrap().iter().all(|c| c.trim().is_empty()) && rows.last().unwrap().len() == 1 {
        rows.pop();
    }
    Ok(rows)
}

pub fn case(cx: &mut Cx) {
    let n = latex::names();
    let r = &mut cx.rng;
    let name = match r.below(4) {
        0 => r.pick(&n.cases).clone(),
        1 => r.pick(&n.mathenv).clone(),
        _ => r.pick(&n.matrix).clone(),
    };
    let e = latex::spec().get_env(&name).unwrap();
    let alias = e.alias.clone().unwrap_or(name.clone()).to_string();
    let arg = match e.args {
        ArgPattern::None => None,
        _ if matches!(e.ctx_feature, ContextFeature::IsMath) => Some(r.below(9).to_string()),
        _ => Some((0..1 + r.below(4)).map(|_| *r.pick(&["l", "c", "r", "|c", "r|"])).collect::<String>()),
    };
    let (nr, nc) = (1 + r.below(4), 1 + r.below(4));
    let ragged = r.chance(1, 3);
    // cells, with what they convert to on their own
    let mut rows: Vec<Vec<(String, Out)>> = vec![];
    let mut pool: Vec<(String, Out)> = vec![];
    for _ in 0..3 {
        if let Some((s, o)) = part(cx) {
            let prime = |o: &Out| o.ok().is_some_and(|o| o.trim_start().starts_with(['\'', '\u{2032}']));
            let bad = s.trim_start().starts_with('[') || prime(&o) || ["itemize", "enumerate", "figure", "table"].iter().any(|n| s.contains(n)) || o.ok().is_some_and(|o| o.trim().is_empty() && !s.trim().is_empty() || tree::math_tree(o).is_err() || super::meta::contained(o, true).is_err());
            // comment signs would hide the separators
            if bad || s.len() >= 120 {
                continue;
            }
            // a command in want of an argument would take the line break
            let more = math(&format!("{s}Q"));
            let tr = |s: &str| tree::math_tree(s).ok();
            if let (Some(a), Some(b)) = (o.ok(), more.ok()) {
                if tr(b) == tr(&format!("{a} Q")) {
                    pool.push((s, o));
                    continue;
                }
            }
            let s = format!("{{{s}}}");
            let o = math(&s);
            pool.push((s, o));
        }
    }
    let r = &mut cx.rng;
    for _ in 0..nr {
        let w = if ragged { 1 + r.below(nc) } else { nc };
        rows.push(
            (0..w)
                .map(|_| match r.below(6) {
                    0 => (String::new(), Out::Ok(String::new())),
                    1 | 2 if !pool.is_empty() => r.pick(&pool).clone(),
                    _ => {
                        let c = r.pick(&["a", "b+1", "x_1", "\\alpha ", "12", "\\frac{1}{2}", "y^2", "(c)", "{}", " ", "k,l", "a;b", "u/v", "\\text{if }", "\\sqrt2", "a \\over b", "\\begin{matrix}1&2\\\\3&4\\end{matrix}", "\\left(a\\right)", "_1", "\\substack{a\\\\b}", "\\bf x"]).to_string();
                        let o = math(&c);
                        (c, o)
                    }
                })
                .collect(),
        );
    }
    // a last row that is just an empty cell is no row
    while rows.len() > 1 && rows.last().unwrap().len() == 1 && rows.last().unwrap()[0].0.trim().is_empty() {
        rows.pop();
    }
    let trailing = r.chance(1, 3);
    let body: Vec<String> = rows.iter().map(|x| x.iter().map(|c| c.0.clone()).collect::<Vec<_>>().join("&")).collect();
    let mut body = body.join("\\\\");
    if trailing {
        body.push_str("\\\\");
        body.push_str(r.pick(&["", " ", "\n", "%c\n"]));
    }
    let a = arg.as_ref().map(|a| format!("{{{a}}}")).unwrap_or_default();
    let s = format!("\\begin{{{name}}}{a}{body}\\end{{{name}}}");
    let (pre, post, doc) = *r.pick(&[("", "", false), ("x+", "_1", false), ("{", "}", false), ("\\left(", "\\right)", false), ("\\frac{", "}{q}", false), ("\\begin{Bmatrix}u&", "\\\\v&w\\end{Bmatrix}", false), ("\\sqrt[3]{", "}", false), ("$$", "$$", true), ("", "", true), ("a $", "$ b", true)]);
    if alias == "Bmatrix" && pre.contains("Bmatrix") {
        return;
    }
    let s = format!("{pre}{s}{post}");
    cx.about(false, &s);
    let o = if doc { text(&s) } else { math(&s) };
    cx.eval();
    let cells_ok = rows.iter().flatten().all(|c| c.1.ok().is_some());
    let o = match o {
        Out::Panic(p) => return cx.fail(format!("panic {p}"), s),
        Out::Err(e) => {
            if cells_ok {
                cx.fail("grid rejected", format!("{s:?}: {e}"));
            } else {
                cx.count("error of a cell is reported");
            }
            return;
        }
        Out::Ok(o) => o,
    };
    if !cells_ok {
        return cx.fail("error of a cell is swallowed", format!("{s:?} => {o:?}"));
    }
    let root = if doc { typst_syntax::parse(&o) } else { typst_syntax::parse_math(&o) };
    if let Some(e) = root.errors().first() {
        return cx.fail(format!("ill-formed: {}", e.message), format!("{s:?} => {o:?}"));
    }
    let Some(call) = find(&root, &alias) else {
        return cx.fail("environment not found", format!("{s:?} => {o:?}: no call of {alias}"));
    };
    let mut named = None;
    let grid = match shape(call, &e.ctx_feature, &mut named) {
        Ok(g) => g,
        Err(x) => return cx.fail(x, format!("{s:?} => {o:?}")),
    };
    if named != arg {
        return cx.fail("argument of the environment", format!("{s:?} => {o:?}: {named:?}, expected {arg:?}"));
    }
    let dims = |l: Vec<usize>| l;
    let got = dims(grid.iter().map(|r| r.len()).collect());
    let want = dims(rows.iter().map(|r| r.len()).collect());
    if got != want {
        return cx.fail("shape", format!("{s:?} => {o:?}\nrows with {got:?} cells, expected {want:?}"));
    }
    for (i, (a, b)) in grid.iter().zip(&rows).enumerate() {
        for (j, (x, y)) in a.iter().zip(b).enumerate() {
            let (p, q) = (tree::math_tree(&bare(x)), tree::math_tree(&bare(y.1.ok().unwrap())));
            if p != q {
                return cx.fail("content of a cell", format!("{s:?} => {o:?}\ncell ({i}, {j}): {x:?}, on its own {:?}", y.1));
            }
        }
    }
    cx.count(match e.ctx_feature {
        ContextFeature::IsMatrix => "matrix",
        ContextFeature::IsCases => "cases",
        _ => "aligned",
    });
    cx.add("cells", rows.iter().map(|r| r.len() as u64).sum());
    cx.distinct(&s);
    cx.sample(|| format!("{s} => {o}"));
}
