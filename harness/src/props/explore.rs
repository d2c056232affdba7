use crate::cx::*;

pub fn case(cx: &mut Cx) {
    let m = cx.rng.chance(1, 2);
    let s = if m { super::meta::formula(cx) } else { super::meta::document(cx) };
    if !crate::reflex::balanced(&s, crate::latex::spec()) || super::c01::has_macro(&s) || s.contains("mitexrec") {
        return;
    }
    cx.about(false, &s);
    let o = if m { math(&s) } else { text(&s) };
    cx.eval();
    if let Out::Ok(o) = o {
        cx.count("ok");
        let root = if m { typst_syntax::parse_math(&o) } else { typst_syntax::parse(&o) };
        if root.erroneous() {
            cx.fail(format!("ILL {}", root.errors()[0].message), format!("{m} {s:?} => {o:?}"));
        }
    }
}
