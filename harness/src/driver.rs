//! Process-isolated execution: a parent hands case numbers to workers, attributes crashes and
//! divergence to the case that was being executed, confirms violations and merges statistics.
use crate::cx::{self, Cx};
use crate::props;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub fn one(prop: &str, seed: u64, thorough: bool, k: u64) -> i32 {
    cx::install_hook();
    let mut c = Cx::new(prop, seed, thorough);
    c.verbose = true;
    c.start(k);
    props::case(&mut c);
    println!("evaluations={} counters={:?} samples={:#?}", c.evaluations, c.counters, c.samples);
    if c.violations.is_empty() {
        0
    } else {
        1
    }
}

pub fn upto(prop: &str, seed: u64, thorough: bool, start: u64, step: u64, last: u64) -> i32 {
    cx::install_hook();
    let mut c = Cx::new(prop, seed, thorough);
    let mut k = start;
    while k <= last {
        c.verbose = k == last;
        c.violations.clear();
        c.start(k);
        props::case(&mut c);
        k += step;
    }
    if c.violations.is_empty() {
        0
    } else {
        1
    }
}

fn dump(c: &Cx, out: &Path, done: bool) {
    let v = json!({
        "done": done,
        "evaluations": c.evaluations,
        "counters": c.counters,
        "maxima": c.maxima,
        "samples": c.samples,
    });
    std::fs::write(out, serde_json::to_vec(&v).unwrap()).unwrap();
    let mut b = Vec::with_capacity(c.distinct.len() * 8);
    for h in &c.distinct {
        b.extend_from_slice(&h.to_le_bytes());
    }
    let mut h = out.as_os_str().to_owned();
    h.push(".hash");
    std::fs::write(h, b).unwrap();
}

pub fn worker(prop: &str, seed: u64, thorough: bool, start: u64, step: u64, n: u64, base: &Path) {
    cx::install_hook();
    let mut c = Cx::new(prop, seed, thorough);
    let st = std::fs::OpenOptions::new()
        .create(true)
        .truncate(false)
        .write(true)
        .open(base.with_extension("state"))
        .unwrap();
    c.attach_state(st);
    let out = base.with_extension(format!("s{start}"));
    let mut vio = std::fs::OpenOptions::new().create(true).append(true).open(base.with_extension("vio")).unwrap();
    let mut k = start;
    let mut last = Instant::now();
    let mut nvio = 0;
    let mut per_sig: std::collections::HashMap<String, u32> = Default::default();
    while k < n {
        c.start(k);
        c.about(false, "(case set-up)");
        let before = c.violations.len();
        props::case(&mut c);
        if c.violations.len() > before {
            for v in c.violations.drain(before..) {
                let m = per_sig.entry(v.sig.clone()).or_insert(0);
                *m += 1;
                if *m > 3 {
                    continue;
                }
                let line = json!({"k": k, "sig": v.sig, "detail": v.detail});
                writeln!(vio, "{line}").unwrap();
                nvio += 1;
            }
            // one worker need not drown the report
            if nvio > 60 {
                break;
            }
        }
        if last.elapsed() > Duration::from_millis(700) {
            dump(&c, &out, false);
            last = Instant::now();
        }
        k += step;
    }
    dump(&c, &out, true);
}

struct W {
    id: u64,
    child: Option<Child>,
    start: u64,
    restarts: u32,
    base: PathBuf,
    last_k: u64,
    cpu_at_k: f64,
}

fn cpu_of(pid: u32) -> f64 {
    // children of this process only
    let Ok(s) = std::fs::read_to_string(format!("/proc/{pid}/stat")) else { return 0.0 };
    let Some(p) = s.rfind(')') else { return 0.0 };
    let f: Vec<&str> = s[p + 1..].split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (g(11) + g(12)) / 100.0
}

fn read_state(base: &Path) -> (u64, bool, String) {
    let b = std::fs::read(base.with_extension("state")).unwrap_or_default();
    if b.len() < 24 {
        return (0, true, String::new());
    }
    let g = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
    let len = (g(16) as usize).min(b.len() - 24);
    (g(0), g(8) != 0, String::from_utf8_lossy(&b[24..24 + len]).into_owned())
}

/// CPU seconds one case may use before it counts as not returning. Cases take micro- to
/// milliseconds; the margin is several orders of magnitude.
const CPU_LIMIT: f64 = 40.0;

pub fn run(prop: &str, seed: u64, thorough: bool, n: u64, jobs: u64, dir: &Path, budget_s: f64) -> Value {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let tier = if thorough { "thorough" } else { "quick" };
    let spawn = |start: u64, base: &Path| -> Child {
        Command::new(&exe)
            .args(["worker", prop, &seed.to_string(), tier, &start.to_string(), &jobs.to_string(), &n.to_string()])
            .arg(base)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(std::fs::File::create(base.with_extension("err")).unwrap())
            .spawn()
            .unwrap()
    };
    let t0 = Instant::now();
    let mut ws: Vec<W> = (0..jobs.min(n.max(1)))
        .map(|i| {
            let base = dir.join(format!("w{i}"));
            let child = Some(spawn(i, &base));
            W { id: i, child, start: i, restarts: 0, base, last_k: u64::MAX, cpu_at_k: 0.0 }
        })
        .collect();
    let mut crashes: Vec<Value> = vec![];
    let mut inconclusive: Vec<Value> = vec![];
    let mut truncated = false;
    loop {
        let mut live = 0;
        for w in ws.iter_mut() {
            let Some(ch) = w.child.as_mut() else { continue };
            match ch.try_wait().unwrap() {
                None => {
                    live += 1;
                    let (k, strict, what) = read_state(&w.base);
                    let cpu = cpu_of(ch.id());
                    if k != w.last_k {
                        w.last_k = k;
                        w.cpu_at_k = cpu;
                    } else if cpu - w.cpu_at_k > CPU_LIMIT {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        let rec = json!({"k": k, "how": "does not return", "what": what, "strict": strict});
                        if strict {
                            crashes.push(rec);
                        } else {
                            inconclusive.push(rec);
                        }
                        w.restarts += 1;
                        w.start = k + jobs;
                        w.child = if w.restarts < 40 && w.start < n { Some(spawn(w.start, &w.base)) } else { None };
                    }
                }
                Some(st) if st.success() => {
                    w.child = None;
                }
                Some(st) => {
                    let (k, strict, what) = read_state(&w.base);
                    let err = std::fs::read_to_string(w.base.with_extension("err")).unwrap_or_default();
                    let how = format!(
                        "process died: signal {:?} code {:?}; {}",
                        st.signal(),
                        st.code(),
                        err.lines().filter(|l| !l.trim().is_empty()).take(4).collect::<Vec<_>>().join(" | ")
                    );
                    let rec = json!({"k": k, "how": how, "what": what, "strict": strict, "err": err.chars().take(20000).collect::<String>()});
                    if strict {
                        crashes.push(rec);
                    } else {
                        inconclusive.push(rec);
                    }
                    w.restarts += 1;
                    w.start = k + jobs;
                    w.child = if w.restarts < 400 && w.start < n { Some(spawn(w.start, &w.base)) } else { None };
                }
            }
            let _ = w.id;
        }
        if live == 0 && ws.iter().all(|w| w.child.is_none()) {
            break;
        }
        if t0.elapsed().as_secs_f64() > budget_s {
            truncated = true;
            for w in ws.iter_mut() {
                if let Some(c) = w.child.as_mut() {
                    let _ = c.kill();
                    let _ = c.wait();
                }
                w.child = None;
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(15));
    }
    // merge
    let mut evaluations = 0;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut maxima: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut vios: Vec<Value> = vec![];
    for e in std::fs::read_dir(dir).unwrap().flatten() {
        let p = e.path();
        let ext = p.extension().and_then(|x| x.to_str()).unwrap_or("").to_string();
        if ext == "hash" {
            for c in std::fs::read(&p).unwrap().chunks_exact(8) {
                hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        } else if ext == "vio" {
            for l in std::fs::read_to_string(&p).unwrap().lines() {
                if let Ok(v) = serde_json::from_str(l) {
                    vios.push(v);
                }
            }
        } else if ext.starts_with('s') && ext != "state" {
            if let Ok(v) = serde_json::from_slice::<Value>(&std::fs::read(&p).unwrap()) {
                evaluations += v["evaluations"].as_u64().unwrap_or(0);
                for (k, x) in v["counters"].as_object().unwrap() {
                    *counters.entry(k.clone()).or_insert(0) += x.as_u64().unwrap();
                }
                for (k, x) in v["maxima"].as_object().unwrap() {
                    let e = maxima.entry(k.clone()).or_insert(0);
                    *e = (*e).max(x.as_u64().unwrap());
                }
                for s in v["samples"].as_array().unwrap() {
                    if samples.len() < 8 {
                        samples.push(s.clone());
                    }
                }
            }
        }
    }
    vios.sort_by_key(|v| v["k"].as_u64());
    json!({
        "evaluations": evaluations,
        "distinct": hashes.len(),
        "counters": counters,
        "maxima": maxima,
        "samples": samples,
        "violations": vios,
        "crashes": crashes,
        "inconclusive": inconclusive,
        "truncated": truncated,
        "cases": n,
        "wall_s": t0.elapsed().as_secs_f64(),
    })
}
