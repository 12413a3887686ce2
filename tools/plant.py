#!/usr/bin/env python3
"""Keeps a planted bug after confirming it: plant.py SPEC.py [id...]

SPEC.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new[, nth])], demo=rust source)].
In a scratch copy of /repo: the patch applies, builds, passes the stable tests,
the demo exits 0 without it and non-zero with it."""
import json, os, shutil, subprocess, sys
V = "/verif/seeded"
S = "/tmp/plant/repo"
DEMO = r'''#!/bin/bash
# cwd: the repository. Builds main.rs against it and runs it.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cat >"$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rdf-types = { path = "$repo", features = ["serde", "contextual"] }
serde = "1.0"
serde_json = "1.0"
langtag = "0.4.0"
iref = "*"
[profile.dev]
debug = false
overflow-checks = false
[workspace]
T
cd "$w"
CARGO_TARGET_DIR="$w/target" cargo build --offline -q
timeout 60 "$w/target/debug/demo"
'''
def sh(c, cwd=None, **k):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    os.makedirs("/tmp/plant", exist_ok=True)
    if not os.path.exists(S):
        assert sh(f"cp -a /repo {S}").returncode == 0
    bad = 0
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git checkout -q -- .", S)
        try:
            for e in b["edits"]:
                f, old, new = e[:3]
                p = f"{S}/{f}"
                t = open(p).read()
                n = t.count(old)
                nth = e[3] if len(e) > 3 else None
                if nth is None:
                    assert n == 1, f"{b['id']}: {n} occurrences in {f} of {old!r}"
                    t = t.replace(old, new)
                else:
                    parts = t.split(old)
                    assert len(parts) > nth + 1, f"{b['id']}: only {n}"
                    t = old.join(parts[: nth + 1]) + new + old.join(parts[nth + 1 :])
                open(p, "w").write(t)
        except AssertionError as e:
            print("FAIL edit", e); bad += 1; continue
        patch = sh("git diff", S).stdout
        # the changed lines must be lines of the original repository
        for f in sh("git diff --name-only", S).stdout.split():
            base = set(x.strip() for x in sh(f"git show 93e1c1f:{f}", "/repo").stdout.split("\n"))
            gone = [x[1:].strip() for x in sh(f"git diff -U0 -- {f}", S).stdout.split("\n") if x.startswith("-") and not x.startswith("---")]
            if gone and not any(x in base for x in gone): print("   WARNING: changes no original line of", f)
            if not gone: print("   WARNING: only adds lines to", f)
        d = f"{V}/{b['id']}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(patch)
        open(f"{d}/main.rs", "w").write(b["demo"].lstrip("\n"))
        open(f"{d}/demo.sh", "w").write(DEMO.replace('features = ["serde", "contextual"]', b.get("features", 'features = ["serde", "contextual"]')).replace('iref = "*"\n', 'iref = "*"\n' + b.get("deps", "")))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        r = sh(". /opt/vp/env.sh; export CARGO_TARGET_DIR=/tmp/plant/target; cargo test $ARGS --no-fail-fast -- --test-threads 8 > /tmp/plant/t.log 2>&1; python3 /opt/vp/results.py /tmp/plant/t.json cargo:/tmp/plant/t.log", S)
        try:
            res = json.load(open("/tmp/plant/t.json"))
        except Exception as e:
            res = {}
        passed = set(res.get("passed", []))
        miss = stable - passed
        ok_tests = not miss
        bad_demo = sh(f"bash {d}/demo.sh", S)
        sh("git checkout -q -- .", S)
        good_demo = sh(f"bash {d}/demo.sh", S)
        ok = ok_tests and bad_demo.returncode != 0 and good_demo.returncode == 0 and "error[" not in bad_demo.stderr and "could not compile" not in bad_demo.stderr
        print(b["id"], "OK" if ok else "FAIL", f"tests_missing={len(miss)} demo_patched={bad_demo.returncode} demo_clean={good_demo.returncode}")
        if not ok:
            bad += 1
            print("   patched:", bad_demo.stderr[-600:]); print("   clean:", good_demo.stderr[-600:])
            if miss: print(open("/tmp/plant/t.log").read()[-500:])
            shutil.rmtree(d)
        sys.stdout.flush()
    sys.exit(bool(bad))
main()
