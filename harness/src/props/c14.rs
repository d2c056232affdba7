//! Structure of formulas: abstract formula -> LaTeX -> converter -> Typst's parser, against
//! abstract formula -> Typst by the reference printer.
use crate::cx::*;
use crate::latex::*;
use crate::tree;

pub fn judge(cx: &mut Cx, v: &[M], s: &str) {
    cx.about(true, s);
    let want = match tree::math_tree(&typ(v)) {
        Ok(t) => t,
        Err(e) => {
            // the reference printer produced invalid code: not a verdict on the converter
            cx.count("reference rejected");
            if cx.verbose {
                println!("reference: {e}: {:?}", typ(v));
            }
            return;
        }
    };
    cx.eval();
    match math(s) {
        Out::Ok(o) => match tree::math_tree(&o) {
            Ok(got) if got == want => {
                cx.count("agree");
                cx.distinct(&want);
                cx.max("tree size", want.len() as u64);
                cx.sample(|| format!("{s} => {o}"));
            }
            Ok(got) => {
                let i = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
                let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[i.saturating_sub(20)..(i + 60).min(s.len())]).into_owned();
                cx.fail("structure differs", format!("latex: {s}\nconverted: {o}\nexpected:  {}\nat: {} <> {}", typ(v), cut(&got), cut(&want)));
            }
            Err(e) => cx.fail(format!("ill-formed: {e}"), format!("latex: {s}\nconverted: {o}")),
        },
        Out::Err(e) => cx.fail("rejected", format!("latex: {s}\nerror: {e}")),
        Out::Panic(p) => cx.fail(format!("panic {p}"), format!("latex: {s}")),
    }
}

pub fn case(cx: &mut Cx) {
    let mut c = Cfg::full();
    if cx.rng.chance(1, 3) {
        c.depth = 2;
        c.len = 3;
    }
    let v = list(&mut cx.rng, c);
    let level = cx.rng.below(3);
    let s = tex(&mut cx.rng, level, &v);
    judge(cx, &v, &s);
}
