#!/usr/bin/env python3
"""plant.py FILE.py ... | -r ID ...: make and judge planted bugs (in /repo's working tree, undone straight afterwards).

A FILE.py has BUGS = [dict(id=, prop=, file=, old=, new=, needs=, breaks=, demo=rust statements | sh=shell script, more=[(file, old, new)])].
-r re-judges what is already in seeded/: applies, (with -t tests,) demo, check."""
import json, os, re, subprocess, sys, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
B = json.load(open("/opt/vp/BASELINE.json"))["stable"]

SH = '''#!/bin/bash
# builds the small program beside this file against the libraries of the built tree, and runs it
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
t=$PWD/target/debug
rustc --edition 2021 -A warnings -o "$d/demo" "$here/demo.rs" -L "dependency=$t/deps" \\
  --extern mitex="$t/libmitex.rlib" --extern mitex_parser="$t/libmitex_parser.rlib" --extern mitex_lexer="$t/libmitex_lexer.rlib" \\
  --extern mitex_spec="$t/libmitex_spec.rlib" --extern mitex_glob="$t/libmitex_glob.rlib" --extern mitex_spec_gen="$t/libmitex_spec_gen.rlib" || exit 0
timeout 120 "$d/demo"
'''
RS = '''// exits with a panic where the property is broken
use mitex::{convert_math, convert_text};

fn m(s: &str) -> String {
    convert_math(s, None).unwrap_or_else(|e| format!("ERR {e}")).split_whitespace().collect::<Vec<_>>().join(" ")
}
fn t(s: &str) -> String {
    convert_text(s, None).unwrap_or_else(|e| format!("ERR {e}"))
}
#[rustfmt::skip]
fn main() {
%s
}
'''


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def undo():
    sh(["git", "-C", "/repo", "checkout", "--", "."])
    assert not sh(["git", "-C", "/repo", "status", "--short"]).stdout.strip()


def build_test(tests=True):
    if sh(["bash", "/opt/vp/build.sh"]).returncode:
        return "does not build"
    if tests:
        sh(["bash", "/opt/vp/test.sh", "/tmp/plant.json"])
        miss = set(B) - set(json.load(open("/tmp/plant.json"))["passed"])
        if miss:
            return f"tests fail: {sorted(miss)[:5]}"
    return None


def demo(i):
    return sh(["bash", os.path.join(S, i, "demo.sh")], cwd="/repo", timeout=300)


def make(b):
    d = os.path.join(S, b["id"])
    os.makedirs(d, exist_ok=True)
    for f, o, n in [(b["file"], b["old"], b["new"])] + b.get("more", []):
        p = os.path.join("/repo", f)
        s = open(p).read()
        if s.count(o) != 1:
            undo()
            return f"{f}: {s.count(o)} places for {o[:60]!r}"
        open(p, "w").write(s.replace(o, n))
    open(os.path.join(d, "patch.diff"), "w").write(sh(["git", "-C", "/repo", "diff"]).stdout)
    # lines of the original repository only
    own = []
    for f in {b["file"], *(x[0] for x in b.get("more", []))}:
        bl = sh(["git", "-C", "/repo", "blame", "-s", "--abbrev=8", "HEAD", "--", f]).stdout.splitlines()
        for h in re.findall(r"^@@ -(\d+)(?:,(\d+))? ", sh(["git", "-C", "/repo", "diff", "-U0", "--", f]).stdout, re.M):
            for k in range(int(h[0]), int(h[0]) + int(h[1] or 1)):
                if int(h[1] or 1) and not bl[k - 1].startswith("^"):
                    base = sh(["git", "-C", "/repo", "merge-base", "--is-ancestor", bl[k - 1].split()[0], "b20a919"]).returncode == 0
                    if not base:
                        own.append(f"{f}:{k}")
    undo()
    if "sh" in b:
        open(os.path.join(d, "demo.sh"), "w").write(b["sh"])
    else:
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        open(os.path.join(d, "demo.rs"), "w").write(RS % textwrap.indent(textwrap.dedent(b["demo"]).strip(), "    "))
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1, ensure_ascii=False)
    return f"changes lines of fixes: {own}" if own else None


def judge(ids, tests, tier="quick"):
    for i in ids:
        prop = json.load(open(os.path.join(S, i, "meta.json")))["property"]
        try:
            if sh(["git", "-C", "/repo", "apply", os.path.join(S, i, "patch.diff")]).returncode:
                print(i, "DOES NOT APPLY", flush=True)
                continue
            e = build_test(tests)
            if e:
                print(i, "BAD", e, flush=True)
                continue
            d = demo(i)
            c = sh(["python3", "check.py", prop, tier], cwd=V)
            hit = c.returncode == 1 and f"VIOLATION property={prop} " in c.stdout
            print(i, prop, f"demo={d.returncode}", "CAUGHT" if hit else f"MISSED rc={c.returncode}", "|", (c.stdout.strip().splitlines() or [""])[0][:150], flush=True)
            if d.returncode == 0:
                print("   DEMO PASSES WITH THE BUG", d.stdout[-300:], d.stderr[-300:])
        finally:
            undo()
    build_test(False)
    for i in ids:
        d = demo(i)
        if d.returncode:
            print(i, "DEMO FAILS ON THE UNCHANGED TREE", d.stdout[-500:], d.stderr[-800:])


if __name__ == "__main__":
    a = sys.argv[1:]
    tests = True
    undo()
    if a[0] == "-r":
        ids = a[1:] or sorted(os.listdir(S))
        if ids[0] == "-n":
            tests, ids = False, ids[1:] or sorted(os.listdir(S))
    else:
        ids = []
        for f in a:
            ns = {}
            exec(open(f).read(), ns)
            for b in ns["BUGS"]:
                e = make(b)
                if e:
                    print(b["id"], "BAD", e, flush=True)
                if not e or "lines of" in e and False:
                    ids.append(b["id"])
    judge(ids, tests)
