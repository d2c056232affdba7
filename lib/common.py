"""Shared plumbing of the checks: builds, the worker pool, verdicts, evidence."""
import json, os, re, shutil, subprocess, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MVH_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
JOBS = int(os.environ.get("MVH_JOBS", str(min(8, os.cpu_count() or 4))))
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"


class Trouble(Exception):
    """the check cannot give an answer"""


class Env:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.work = os.path.join(TARGET, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)


def base_env(**kw):
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/opt/typst/bin:/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(
        RUSTUP_TOOLCHAIN=STABLE,
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
        CARGO_TARGET_DIR=os.path.join(TARGET, "h"),
        RUST_BACKTRACE="0",
    )
    e.pop("RUSTFLAGS", None)
    e.update(kw)
    return e


def sh(cmd, env=None, cwd=None, timeout=800, check=True, inp=None):
    try:
        p = subprocess.run(cmd, env=env or base_env(), cwd=cwd, timeout=timeout, input=inp, capture_output=True)
    except subprocess.TimeoutExpired:
        raise Trouble(f"time limit: {' '.join(map(str, cmd))[:200]}")
    if check and p.returncode != 0:
        raise Trouble(f"{' '.join(map(str, cmd))[:200]} -> {p.returncode}\n{p.stderr.decode(errors='replace')[-3000:]}")
    return p


def build_harness():
    sh(["cargo", "build", "--offline", "--release"], cwd=os.path.join(VERIF, "harness"))
    return os.path.join(TARGET, "h", "release", "mvh")


def build_san(which):
    """the harness under a sanitizer (nightly)"""
    d = os.path.join(TARGET, which)
    fl = f"-Zsanitizer={'address' if which == 'asan' else 'thread'} -Cdebuginfo=1"
    cmd = ["cargo", "build", "--offline", "--release", "--target", TRIPLE]
    if which == "tsan":
        cmd += ["-Zbuild-std"]
    sh(cmd, cwd=os.path.join(VERIF, "harness"), env=base_env(RUSTUP_TOOLCHAIN=NIGHTLY, RUSTFLAGS=fl, CARGO_TARGET_DIR=d))
    return os.path.join(d, TRIPLE, "release", "mvh")


def std_source():
    """the standard library's source for -Zbuild-std on wasm32: its dlmalloc is vendored but locked to the registry"""
    src = os.path.join(os.path.expanduser("~"), ".rustup/toolchains", NIGHTLY, "lib/rustlib/src/rust/library")
    if not os.path.isdir(src):
        root = sh(["rustc", "--print", "sysroot"], env=base_env(RUSTUP_TOOLCHAIN=NIGHTLY)).stdout.decode().strip()
        src = os.path.join(root, "lib/rustlib/src/rust/library")
    dst = os.path.join(TARGET, "rust-src", "library")
    os.makedirs(dst, exist_ok=True)
    for f in os.listdir(src):
        if f not in ("Cargo.toml", "Cargo.lock") and not os.path.lexists(os.path.join(dst, f)):
            os.symlink(os.path.join(src, f), os.path.join(dst, f))
    t = open(os.path.join(src, "Cargo.toml")).read()
    v = [d for d in os.listdir(os.path.join(src, "vendor")) if d.startswith("dlmalloc-")][0]
    t = t.replace("[patch.crates-io]", f'[patch.crates-io]\ndlmalloc = {{ path = "vendor/{v}" }}')
    lk = open(os.path.join(src, "Cargo.lock")).read()
    lk = re.sub(r'(name = "dlmalloc"\nversion = "[^"]*"\n)source = [^\n]*\nchecksum = [^\n]*\n', r"\1", lk)
    for name, text in (("Cargo.toml", t), ("Cargo.lock", lk)):
        p = os.path.join(dst, name)
        if not os.path.exists(p) or open(p).read() != text:
            with open(p, "w") as f:
                f.write(text)
    return dst


def build_wasm():
    """the Typst plugin, from /repo's crates, for wasm32"""
    d = os.path.join(TARGET, "wasm")
    sh(["cargo", "build", "--offline", "--release", "--target", "wasm32-unknown-unknown", "-Zbuild-std=std,panic_abort", "--features", "typst-plugin,spec-api"],
       cwd=os.path.join(VERIF, "wasm-shadow"), env=base_env(RUSTUP_TOOLCHAIN=NIGHTLY, CARGO_TARGET_DIR=d, __CARGO_TESTS_ONLY_SRC_ROOT=std_source()))
    return os.path.join(d, "wasm32-unknown-unknown", "release", "mitex_wasm.wasm")


def build_typst():
    """the harness with Typst in it, and the plugin"""
    w = build_wasm()
    d = os.path.join(TARGET, "t")
    sh(["cargo", "build", "--offline", "--profile", "typst", "--features", "typst"], cwd=os.path.join(VERIF, "harness"), env=base_env(CARGO_TARGET_DIR=d))
    return os.path.join(d, "typst", "mvh"), {"MVH_WASM": w, "MVH_REPO": REPO}


def build_cli():
    """the command line program, from the workspace without its wasm member (whose git dependency is not there)"""
    ws = os.path.join(TARGET, "ws")
    shutil.rmtree(ws, ignore_errors=True)
    os.makedirs(os.path.join(ws, "crates"))
    os.makedirs(os.path.join(ws, "fuzz"))
    os.symlink(os.path.join(REPO, "Cargo.toml"), os.path.join(ws, "Cargo.toml"))
    for f in ("docs", "fixtures", "README.md"):
        os.symlink(os.path.join(REPO, f), os.path.join(ws, f))
    sh(["cp", "-a", os.path.join(REPO, "packages"), os.path.join(ws, "packages")])
    for k in ("crates", "fuzz"):
        for d in os.listdir(os.path.join(REPO, k)):
            if d != "mitex-wasm":
                os.symlink(os.path.join(REPO, k, d), os.path.join(ws, k, d))
    shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(ws, "Cargo.lock"))
    d = os.path.join(TARGET, "cli")
    sh(["cargo", "build", "--offline", "-p", "mitex-cli", "--bin", "mitex"], cwd=ws, env=base_env(CARGO_TARGET_DIR=d, CARGO_PROFILE_DEV_OPT_LEVEL="1"))
    return os.path.join(d, "debug", "mitex")


def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


class Report:
    def __init__(self, env, level="exploration", rule="", assumptions=()):
        self.env, self.level, self.rule, self.assumptions = env, level, rule, list(assumptions)
        self.evaluations = 0
        self.distinct = 0
        self.samples = []
        self.extra = {}
        self.violations = []  # (sig, detail, replay)
        self.inconclusive = []
        self.wall = 0.0

    def violate(self, sig, detail, replay):
        self.violations.append((sig, detail, replay))

    def finish(self):
        pid = self.env.pid
        fresh, listed = [], []
        for v in self.violations:
            hit = None
            for f in known()["findings"]:
                if f["property"] == pid and f["sig"] == v[0] and f.get("contains", "") in v[1]:
                    hit = f
            (listed if hit else fresh).append((v, hit))
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": self.distinct,
            "rule": self.rule,
            "samples": self.samples[:8],
        }
        cov.update(self.extra)
        cov["inconclusive"] = len(self.inconclusive)
        if self.inconclusive:
            cov["inconclusive_samples"] = self.inconclusive[:5]
        ev = {
            "property": pid,
            "tier": self.env.tier,
            "seed": self.env.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(self.wall, 2),
            "violations": len(fresh),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for f in {id(h): h for _, h in listed}.values():
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
        if fresh:
            d = os.path.join(VERIF, "replays", pid)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            seen = {}
            for (sig, detail, replay), _ in fresh:
                seen.setdefault(sig, (detail, replay))
            for i, (sig, (detail, replay)) in enumerate(sorted(seen.items())[:10]):
                p = os.path.join(d, f"v{i}.json")
                with open(p, "w") as f:
                    json.dump({"property": pid, "signature": sig, "detail": detail, "replay": replay, "seed": self.env.seed, "tier": self.env.tier}, f, indent=1, ensure_ascii=False)
                print(f"  {sig}\n    {detail[:600]}")
                print(f"VIOLATION property={pid} replay={p}")
            return 1
        if self.evaluations == 0 or self.distinct == 0:
            print(f"NO ANSWER property={pid}: nothing was observed")
            return 3
        print(f"HELD property={pid} tier={self.env.tier} seed={self.env.seed} evaluations={self.evaluations} distinct={self.distinct} wall={self.wall:.1f}s")
        return 0


def run_pool(env, rep, prop, exe, budget, n=None, san=None, label=None, extra_env=None):
    """one workload of the harness, in worker processes"""
    d = os.path.join(env.work, label or prop)
    cmd = [exe, "run", prop, str(env.seed), env.tier, str(JOBS), d, str(budget)]
    if n is not None:
        cmd.append(str(n))
    e = base_env(**(extra_env or {}))
    p = sh(cmd, env=e, timeout=budget + 120)
    v = json.loads(p.stdout)
    rep.evaluations += v["evaluations"]
    rep.distinct += v["distinct"]
    rep.samples += v["samples"]
    rep.extra.setdefault("workloads", {})[label or prop] = {
        "cases": v["cases"], "evaluations": v["evaluations"], "distinct": v["distinct"], "counters": v["counters"], "maxima": v["maxima"],
        "cut_short_by_time": v["truncated"],
    }
    one = lambda k: [exe, "one", prop, str(env.seed), env.tier, str(k)]
    hist = lambda k: [exe, "upto", prop, str(env.seed), env.tier, str(k % JOBS), str(JOBS), str(k)]
    seen, listed_sigs = set(), set()
    for x in sorted(v["violations"], key=lambda x: len(x["detail"])):
        if x["sig"] in seen:
            continue
        listed = any(f["property"] == rep.env.pid and f["sig"] == x["sig"] for f in known()["findings"])
        if len([s for s in seen if s not in listed_sigs]) >= 6 and not listed:
            continue
        if listed:
            listed_sigs.add(x["sig"])
        # confirm in a fresh process, alone, or else after the cases the worker had run before
        for c in (one(x["k"]), hist(x["k"])):
            try:
                q = subprocess.run(c, env=e, capture_output=True, timeout=400)
            except subprocess.TimeoutExpired:
                continue
            if q.returncode == 1 and b"VIOLATES" in q.stdout:
                seen.add(x["sig"])
                rep.violate(x["sig"], x["detail"], " ".join(c))
                break
        else:
            rep.inconclusive.append(f"not reproduced: {x['sig']} case {x['k']}")
    for x in v["crashes"][:4]:
        sig = x["how"].split(";")[0]
        if san:
            m = re.search(r"(ERROR|WARNING|SUMMARY): \w+Sanitizer: [^\n]*", x.get("err", ""))
            if m:
                sig = re.sub(r"0x[0-9a-f]+|pid=\d+|\d{2,}", "N", m.group(0))[:160]
        try:
            q = subprocess.run(one(x["k"]), env=e, capture_output=True, timeout=120)
            rc = q.returncode
        except subprocess.TimeoutExpired:
            rc = "no return within 120 s"
        if rc in (0,):
            rep.inconclusive.append(f"not reproduced: {sig} case {x['k']}")
        else:
            rep.violate(sig, f"{x['how']}\ninput: {x['what'][:3000]!r}\n{x.get('err','')[:3000]}", " ".join(one(x["k"])))
    for x in v["inconclusive"]:
        rep.inconclusive.append(f"{x['how'][:200]} case {x['k']}")
    return v
