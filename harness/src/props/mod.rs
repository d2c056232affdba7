//! One module per property; `cases` is the number of cases per tier, `case` runs and judges one.
use crate::cx::Cx;

mod c01;
mod c14;
mod docs;
mod explore;
mod faults;
mod glob;
pub mod iso;
mod grid;
mod kept;
mod lexer;
mod macros;
pub mod meta;
mod parser;
pub mod spec;
mod table;
#[cfg(feature = "typst")]
mod cli;
#[cfg(feature = "typst")]
mod plugin;
#[cfg(feature = "typst")]
pub mod typst;
pub mod work;

pub fn cases(prop: &str, thorough: bool) -> u64 {
    let (q, t) = match prop {
        "C01" => (200_000, 4_000_000),
        "C25" | "C28" | "C18" | "C08" | "C09" | "C11" | "C03" | "C04" | "C05" | "C06" | "C07" | "C13" | "C14" | "C16" | "C12" | "C15" | "C17" | "C24" | "C26" => (200_000, 4_000_000),
        "C10" => (4_000, 80_000),
        "C02" => (6_000, 120_000),
        "C20" => (60_000, 1_200_000),
        "C21" => (200_000, 3_000_000),
        "C19" => (1_400, 1_400),
        "C22" => (12_000, 300_000),
        "C23" => (30_000, 600_000),
        "C30" | "C31" => (20_000, 400_000),
        "C27" | "C29" => (40_000, 1_000_000),
        "explore" => (40_000, 400_000),
        _ => panic!("unknown property {prop}"),
    };
    if thorough {
        t
    } else {
        q
    }
}

pub fn case(cx: &mut Cx) {
    let p = cx.prop.clone();
    match p.as_str() {
        "C01" => c01::case(cx),
        "C14" => c14::case(cx),
        "C13" | "C16" | "C17" => docs::case(cx),
        "C03" => lexer::case(cx),
        "C04" | "C05" | "C06" => parser::case(cx),
        "C07" => glob::case(cx),
        "C08" => macros::transparent(cx),
        "C09" => macros::discipline(cx),
        "C11" => macros::conditional(cx),
        "C25" => faults::case(cx),
        "C28" => kept::case(cx),
        "C10" => iso::case(cx),
        "C02" => work::case(cx),
        "C20" => spec::forms(cx),
        "C21" => spec::honoured(cx),
        "C18" => table::case(cx),
        "C12" => meta::wellformed(cx),
        "C15" => grid::case(cx),
        "C24" => meta::layout(cx),
        "C26" => meta::compose(cx),
        #[cfg(feature = "typst")]
        "C22" => cli::documents(cx),
        #[cfg(feature = "typst")]
        "C23" => cli::failures(cx),
        #[cfg(feature = "typst")]
        "C27" => typst::sets(cx),
        #[cfg(feature = "typst")]
        "C29" => typst::colours(cx),
        #[cfg(feature = "typst")]
        "C30" => plugin::plugin(cx),
        #[cfg(feature = "typst")]
        "C19" => plugin::embedded(cx),
        #[cfg(feature = "typst")]
        "C31" => plugin::package(cx),
        "explore" => explore::case(cx),
        _ => unreachable!(),
    }
}
