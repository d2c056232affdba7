//! Documents against the reference printer (C13, C16, C17).
use crate::cx::*;
use crate::doc::*;
use crate::tree;

pub fn judge(cx: &mut Cx, s: &str, want_code: &str, strict: bool) {
    let tree_of = if strict { tree::text_tree } else { tree::text_tree_flat };
    cx.about(true, s);
    let want = match tree_of(want_code) {
        Ok(t) => t,
        Err(e) => {
            cx.count("reference rejected");
            if cx.verbose {
                println!("reference: {e}: {want_code}");
            }
            return;
        }
    };
    cx.eval();
    match text(s) {
        Out::Ok(o) => match tree_of(&o) {
            Ok(got) if got == want => {
                cx.count("agree");
                cx.distinct(&want);
                cx.max("tree size", want.len() as u64);
                cx.sample(|| format!("{s} => {o}"));
            }
            Ok(got) => {
                let i = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
                let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[i.saturating_sub(30)..(i + 60).min(s.len())]).into_owned();
                cx.fail("structure differs", format!("latex: {s}\nconverted: {o}\nexpected:  {want_code}\nat: {} <> {}", cut(&got), cut(&want)));
            }
            Err(e) => cx.fail(format!("ill-formed: {e}"), format!("latex: {s}\nconverted: {o}")),
        },
        Out::Err(e) => cx.fail("rejected", format!("latex: {s}\nerror: {e}")),
        Out::Panic(p) => cx.fail(format!("panic {p}"), format!("latex: {s}")),
    }
}

pub fn case(cx: &mut Cx) {
    let mut c = DCfg::full();
    let mut strict = cx.prop == "C13";
    match cx.prop.as_str() {
        // running text within lists, figures and tables, too
        "C13" if cx.rng.chance(1, 4) => strict = false,
        "C13" => {
            c.figures = false;
            c.tables = false;
            c.lists = false;
        }
        "C16" => c.lists = false,
        _ => {
            c.figures = false;
            c.tables = false;
            c.labels = false;
        }
    }
    let p = cx.prop.clone();
    let r = &mut cx.rng;
    let v = if r.chance(1, 2) && !(p == "C13" && !strict) {
        vec![match p.as_str() {
            "C16" => match r.below(3) {
                0 => B::Tabular(tab(r, c)),
                1 => B::EnvMath(math_env(r), Some(label(r)), r.chance(1, 2)),
                _ => B::Figure(fig(r, c)),
            },
            "C17" if r.chance(1, 10) => tower(r, c),
            "C17" => B::List(r.chance(1, 2), items(r, c)),
            _ => B::Par(inline(r, c)),
        }]
    } else {
        doc(r, c)
    };
    let level = cx.rng.below(3);
    let (s, t) = spell(&mut cx.rng, level, &v);
    // (several dots are an ellipsis to Typst)
    if s.chars().filter(|c| !matches!(c, '{' | '}')).collect::<String>().contains("..") {
        return;
    }
    judge(cx, &s, &t, strict);
}
