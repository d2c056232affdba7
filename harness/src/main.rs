mod cx;
mod doc;
mod driver;
mod latex;
mod props;
mod reflex;
mod rng;
mod soup;
mod tree;
#[cfg(feature = "typst")]
mod typ;

#[global_allocator]
static ALLOC: props::work::Counting = props::work::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let u = |i: usize| a[i].parse::<u64>().unwrap();
    match a.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            driver::worker(&a[2], u(3), a[4] == "thorough", u(5), u(6), u(7), std::path::Path::new(&a[8]));
        }
        Some("one") => {
            std::process::exit(driver::one(&a[2], u(3), a[4] == "thorough", u(5)));
        }
        Some("upto") => {
            // the cases of one worker, in its order, up to a given one
            std::process::exit(driver::upto(&a[2], u(3), a[4] == "thorough", u(5), u(6), u(7)));
        }
        Some("run") => {
            // run PROP SEED TIER JOBS DIR BUDGET_S [N]
            let thorough = a[4] == "thorough";
            let n = a.get(8).map(|x| x.parse().unwrap()).unwrap_or_else(|| props::cases(&a[2], thorough));
            let budget: f64 = a[7].parse().unwrap();
            let v = driver::run(&a[2], u(3), thorough, n, u(5), std::path::Path::new(&a[6]), budget);
            println!("{}", serde_json::to_string_pretty(&v).unwrap());
        }
        Some("digest") => props::iso::digest(u(2), u(3), u(4), a[5] == "back", a[5] == "raw"),
        #[cfg(feature = "typst")]
        Some("each") => props::typst::each(),
        #[cfg(feature = "typst")]
        Some("typ") => props::typst::try_(&a[2..]),
        Some("cold") => props::iso::cold(u(2), u(3)),
        Some("cv") => {
            // cv m|t|a INPUT...
            for i in &a[3..] {
                match a[2].as_str() {
                    "m" => println!("{:?}", cx::math(i)),
                    "t" => println!("{:?}", cx::text(i)),
                    _ => println!("{:#?}", mitex_parser::parse(i, mitex_spec_gen::DEFAULT_SPEC.clone())),
                }
            }
        }
        _ => {
            eprintln!("usage: mvh run|one|worker ...");
            std::process::exit(2);
        }
    }
}
