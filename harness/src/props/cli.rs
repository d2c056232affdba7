//! The command line program (C22, C23).
use super::{macros, meta};
use crate::cx::*;
use crate::typ::*;
use crate::{doc, soup};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// a directory of this process, emptied for each case
struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Scratch {
        let base = std::env::var("MVH_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
        let d = base.join(format!("mvh-cli-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
    fn put(&self, name: &Path, b: &[u8]) {
        let p = self.0.join(name);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, b).unwrap();
    }
    /// all files with their contents
    fn list(&self) -> BTreeMap<PathBuf, Vec<u8>> {
        fn walk(d: &Path, root: &Path, out: &mut BTreeMap<PathBuf, Vec<u8>>) {
            for e in std::fs::read_dir(d).unwrap() {
                let p = e.unwrap().path();
                let n = p.strip_prefix(root).unwrap().to_path_buf();
                if p.is_dir() {
                    out.insert(n, b"(directory)".to_vec());
                    walk(&p, root, out)
                } else {
                    out.insert(n, std::fs::read(&p).unwrap());
                }
            }
        }
        let mut o = BTreeMap::new();
        walk(&self.0, &self.0, &mut o);
        o
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    out: String,
    err: String,
}

fn run(d: &Scratch, args: &[OsString]) -> Ran {
    let exe = std::env::var_os("MVH_CLI").expect("MVH_CLI");
    let o = Command::new(exe).args(args).current_dir(&d.0).stdin(Stdio::null()).env("RUST_BACKTRACE", "0").output().unwrap();
    Ran {
        code: o.status.code(),
        signal: o.status.signal(),
        out: String::from_utf8_lossy(&o.stdout).into_owned(),
        err: String::from_utf8_lossy(&o.stderr).into_owned(),
    }
}

fn source(cx: &mut Cx) -> String {
    match cx.rng.below(8) {
        0 => soup::hostile(&mut cx.rng),
        1 => macros::any_program(cx),
        2 | 3 => meta::document(cx),
        _ => {
            let v = doc::doc(&mut cx.rng, doc::DCfg::full());
            let l = cx.rng.below(3);
            doc::spell(&mut cx.rng, l, &v).0
        }
    }
    .replace("\\cite{", "\\ref{")
    .replace(".jpg", ".png")
    .replace(".pdf", ".png")
}

/// where the source and the code are, and how that is said
struct Call {
    input: PathBuf,
    output: PathBuf,
    args: Vec<OsString>,
}

fn call(cx: &mut Cx, d: &Scratch) -> Call {
    let r = &mut cx.rng;
    let input = PathBuf::from(*r.pick(&["main.tex", "a.b.tex", "noext", "with space.tex", "sub/x.tex", "sub.d/deep/y.ltx", "\u{e4}\u{4e2d}.tex", "x.TEX", "-", "a=b.tex", ".hidden"]));
    let named = r.chance(1, 2);
    let default = r.chance(1, 2);
    let output = if default { input.with_extension("typ") } else { PathBuf::from(*r.pick(&["out.typ", "o p.typ", "plain", "o.x.y", "\u{fc}.typ", "out.tex"])) };
    let abs = |r: &mut crate::rng::Rng, p: &Path| if r.chance(1, 4) || p == Path::new("-") { d.0.join(p).into_os_string() } else { p.as_os_str().to_owned() };
    let (i, o) = (abs(r, &input), abs(r, &output));
    let mut args: Vec<OsString> = vec![if r.chance(1, 3) { "c".into() } else { "compile".into() }];
    if r.chance(1, 4) {
        args.extend(["-w".into(), ".".into()]);
    }
    if r.chance(1, 4) {
        args.extend(["--stage".into(), "document".into()]);
    }
    if named {
        args.extend([if r.chance(1, 2) { "-i" } else { "--input" }.into(), i]);
        if !default {
            args.extend([if r.chance(1, 2) { "-o" } else { "--output" }.into(), o]);
        }
    } else {
        args.push(i);
        if !default {
            args.push(o);
        }
    }
    Call { input, output, args }
}

fn show(a: &[OsString]) -> String {
    format!("{a:?}")
}

const SET: &str = "#set heading(numbering: \"1.\")\n#set math.equation(numbering: \"1\")\n#set page(width: 300pt, height: auto)\n";

/// C22
pub fn documents(cx: &mut Cx) {
    let s = source(cx);
    let want = text(&s);
    let Out::Ok(code) = &want else {
        cx.count("not converted");
        return;
    };
    let d = Scratch::new();
    let c = call(cx, &d);
    d.put(&c.input, s.as_bytes());
    let before = d.list();
    if cx.rng.chance(1, 2) {
        // there is something already
        d.put(&c.output, "#old text\n".repeat(cx.rng.below(2000)).as_bytes());
    }
    cx.about(false, &s);
    let r = run(&d, &c.args);
    cx.eval();
    if r.code != Some(0) {
        return cx.fail("a source that converts is refused", format!("{} {s:?}: {:?} {:?} {}", show(&c.args), r.code, r.signal, r.err));
    }
    let mut after = d.list();
    let Some(got) = after.remove(&c.output) else {
        return cx.fail("the document is not where it should be", format!("{}: {:?}", show(&c.args), after.keys()));
    };
    let mut others = before;
    others.remove(&c.output);
    if others != after {
        return cx.fail("other files", format!("{}: {:?}", show(&c.args), after.keys()));
    }
    let Ok(got) = String::from_utf8(got) else { return cx.fail("not text", show(&c.args)) };
    // nothing but the source counts
    let d2 = Scratch::new();
    d2.put(Path::new("m.tex"), s.as_bytes());
    run(&d2, &["compile".into(), "m.tex".into()]);
    cx.eval();
    let again = std::fs::read_to_string(d2.0.join("m.typ")).unwrap_or_default();
    if got != again {
        return cx.fail("another document for the same source", format!("{} {s:?}: {got:?} <> {again:?}", show(&c.args)));
    }
    // the syntax tree
    if cx.rng.chance(1, 8) {
        let a: Vec<OsString> = ["compile", "--stage", "syntax", "m.tex", "tree.txt"].iter().map(|a| a.into()).collect();
        let r = run(&d2, &a);
        cx.eval();
        let tree = format!("{:#?}", mitex_parser::parse(&s, mitex_spec_gen::DEFAULT_SPEC.clone()));
        let got = std::fs::read_to_string(d2.0.join("tree.txt")).unwrap_or_default();
        if r.code != Some(0) || !got.trim_end().ends_with(tree.trim_end()) {
            return cx.fail("another syntax tree", format!("{s:?}: {:?} {got}", r.code));
        }
        cx.count("syntax trees");
    }
    // what it gives in Typst
    let whole = |defs: &str| {
        let a = W::get().compile(&format!("{SET}\n#import \"@preview/mitex:{}\": *\n#mitext({})\n\n{defs}", version(), lit(&s)));
        let b = W::get().compile(&format!("{SET}{got}\n\n{defs}"));
        (a, b)
    };
    let (mut a, mut b) = whole("");
    if let Err(e) = &a {
        let mut m = super::typst::missing(e);
        m.sort();
        m.dedup();
        if m.len() > 0 {
            let defs: String = m.iter().map(|m| if m.starts_with("label(") { format!("#[#heading[x] #{m}]\n") } else { format!("#[#heading[x] {m}]\n") }).collect();
            (a, b) = whole(&defs);
        }
    }
    cx.eval();
    match (a, b) {
        (Ok(a), Ok(b)) => {
            let (a, b) = (ink(&a), ink(&b));
            if a != b {
                let i = a.iter().zip(&b).take_while(|(a, b)| a == b).count();
                return cx.fail("drawn in another way", format!("{s:?} => {code:?}: package {:?}, document {:?}", a.get(i), b.get(i)));
            }
            cx.count("documents drawn");
            cx.distinct(&s);
            cx.sample(|| format!("{}: {} items drawn", show(&c.args), a.len()));
        }
        (Err(e), _) => {
            let e = e.split(['`', '"', '[']).next().unwrap().trim();
            cx.count(&format!("code that Typst rejects: {}", e.chars().take(40).collect::<String>()))
        }
        (Ok(_), Err(e)) => {
            let e = e.split(" [").next().unwrap().to_string();
            cx.fail(format!("the document is not set: {e}"), format!("{s:?} => {code:?}: {e}\n{got}"))
        }
    }
}

/// C23
pub fn failures(cx: &mut Cx) {
    let d = Scratch::new();
    let mut c = call(cx, &d);
    // what is there before
    if cx.rng.chance(2, 3) {
        d.put(&c.output, "my own work\n".repeat(cx.rng.below(500)).as_bytes());
    }
    d.put(Path::new("other.typ"), b"other");
    let mut say = String::new();
    let what = match cx.rng.below(10) {
        0 => {
            // bytes that are not text
            let mut b = source(cx).into_bytes();
            b.truncate(3000);
            let i = cx.rng.below(b.len() + 1);
            let bad: &[u8] = *cx.rng.pick(&[&[0xff][..], &[0xc3], &[0xe4, 0xb8], &[0xed, 0xa0, 0x80], &[0xf5, 0x80, 0x80, 0x80], &[0xc0, 0x80]]);
            b.splice(i..i, bad.iter().copied());
            if std::str::from_utf8(&b).is_ok() {
                return;
            }
            d.put(&c.input, &b);
            "bytes that are not text"
        }
        1 => {
            let p = d.0.join(&c.input);
            if p.exists() {
                return;
            }
            "no input"
        }
        2 => {
            let _ = std::fs::remove_file(d.0.join(&c.input));
            std::fs::create_dir_all(d.0.join(&c.input)).unwrap();
            "a directory as input"
        }
        3 => {
            // the arguments are wrong
            d.put(&c.input, b"ok");
            let f = |v: &[&str]| v.iter().map(OsString::from).collect::<Vec<_>>();
            let i = c.input.to_string_lossy().to_string();
            let i = i.as_str();
            c.args = match cx.rng.below(8) {
                0 => f(&["compile"]),
                1 => f(&["compile", "--", i, "out.typ", "more"]),
                2 => f(&["compile", "-i", "main.tex", "out.typ"]),
                3 => f(&["compile", "-o", "out.typ"]),
                4 => f(&["compile", "--stage", "typst", "main.tex"]),
                5 => f(&["compile", "--no-such-option", "main.tex"]),
                6 => f(&["no-such-command", "main.tex"]),
                _ => {
                    let mut v = f(&["compile"]);
                    v.push(OsString::from_vec(vec![b'a', 0xff, b'.', b't']));
                    v
                }
            };
            "wrong arguments"
        }
        4 => {
            d.put(&c.input, b"a $b$ c");
            let o = match cx.rng.below(3) {
                0 => "no-such-directory/out.typ",
                1 => "/dev/full",
                _ => {
                    std::fs::create_dir_all(d.0.join("dir.typ")).unwrap();
                    "dir.typ"
                }
            };
            c.args = ["compile".into(), "-i".into(), d.0.join(&c.input).into_os_string(), "-o".into(), o.into()].to_vec();
            "an output that cannot be written"
        }
        _ => {
            let mut s = source(cx);
            s.push_str(cx.rng.pick(&["\\zqfoo", "\n\n}", "\\end{x}", "{\\zqx{a}}", "$\\begin{zqenv}a\\end{zqenv}$", "", "\\]"]));
            match text(&s) {
                Out::Err(e) => say = e,
                _ => {
                    cx.count("converted after all");
                    return;
                }
            }
            d.put(&c.input, s.as_bytes());
            cx.about(false, &s);
            "a source that does not convert"
        }
    };
    let before = d.list();
    let r = run(&d, &c.args);
    cx.eval();
    let here = format!("{what}: {} -> {:?} {:?}\nstdout {:?}\nstderr {:?}", show(&c.args), r.code, r.signal, r.out, r.err);
    if r.signal.is_some() || r.err.contains("panicked") {
        return cx.fail("it crashes", here);
    }
    if r.code == Some(0) {
        return cx.fail("a failure is not reported in the exit code", here);
    }
    if r.err.trim().is_empty() {
        return cx.fail("a failure without a message", here);
    }
    // (terminals do not get control characters)
    let flat = |s: &str| s.replace(|c: char| c.is_control() && c != '\n', " ").split_whitespace().collect::<Vec<_>>().join(" ");
    if !say.is_empty() && !flat(&r.err).contains(&flat(&say)) {
        return cx.fail("the message does not say what is wrong", format!("{here}\nwanted {say:?}"));
    }
    let after = d.list();
    if before != after {
        let k: Vec<_> = after.iter().filter(|(k, v)| before.get(*k) != Some(*v)).map(|(k, v)| format!("{k:?}: {} bytes", v.len())).collect();
        return cx.fail("files are touched by a run that fails", format!("{here}\n{k:?}"));
    }
    cx.count(what);
    cx.distinct(&format!("{} {say}", show(&c.args)));
    cx.sample(|| here.chars().take(300).collect());
}
