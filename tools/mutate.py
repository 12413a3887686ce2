#!/usr/bin/env python3
"""Mutation campaign: mutate.py OUT.jsonl [workers] [seed] [max] [file-regex]

Plants small syntactic changes into scratch copies of /repo. A mutant that builds
and passes the existing tests is run against every scenario with a reduced number
of runs; the ones nothing catches are listed for reading (most are equivalent)."""
import json, os, random, re, subprocess, sys, threading, queue, time
OUT = sys.argv[1]
W = int(sys.argv[2]) if len(sys.argv) > 2 else 4
SEED = int(sys.argv[3]) if len(sys.argv) > 3 else 1
MAX = int(sys.argv[4]) if len(sys.argv) > 4 else 10**9
FILES = re.compile(sys.argv[5] if len(sys.argv) > 5 else ".")
BASE = "/tmp/mut"
SWAPS = [
    (r"==", ["!="]), (r"!=", ["=="]), (r"(?<![-=<>])<=(?!=)", ["<"]), (r"(?<![-=<>])>=", [">"]),
    (r"&&", ["||"]), (r"\|\|(?! *\{)", ["&&"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\bis_some\b", ["is_none"]), (r"\bis_none\b", ["is_some"]),
    (r"\bSameAsSubject\b", ["SameAsPredicate", "SameAsObject"]),
    (r"\bSameAsPredicate\b", ["SameAsSubject", "SameAsObject"]),
    (r"\bSameAsObject\b", ["SameAsSubject", "SameAsPredicate"]),
    (r"\.0\b", [".1", ".2"]), (r"\.1\b", [".0", ".2"]), (r"\.2\b", [".0", ".1"]), 
    (r"\bas_subject\b", ["as_predicate"]), (r"\bas_predicate\b", ["as_object"]), (r"\bas_object\b", ["as_subject"]), (r"\bas_graph\b", ["as_subject"]),
    (r"\bs_i\b", ["p_i", "o_i"]), (r"\bp_i\b", ["s_i", "o_i"]), (r"\bo_i\b", ["s_i", "p_i"]), (r"\bg_i\b", ["s_i"]),
    (r"\bsubjects\b", ["predicates"]), (r"\bpredicates\b", ["objects"]), (r"\bobjects\b", ["subjects"]),
    (r"\bOrdering::Greater\b", ["Ordering::Less"]), (r"\bOrdering::Less\b", ["Ordering::Greater"]),
    (r"\+ 1\b", ["+ 2", "+ 0"]), (r"\+= 1\b", ["+= 2"]), (r"-= 1\b", ["-= 2"]), (r"checked_add\(1\)", ["checked_add(2)"]),
    (r"\.any\b(?!\()", [".given"]), (r"\bany\(", ["all("]), (r"\ball\(", ["any("]),
    (r"\bor_else\b", ["and_then"]), (r"\bSome\(([a-z_.]+)\)", ["None"]),
    (r"\bOk\(\(\)\)", ["Err(None)", "Err(std::fmt::Error)"]), (r"\?;", [".ok();", ";"]),
    (r"\b(s|p|o|g)\b(?=[,)])", ["s", "p", "o", "g"]),
    (r"\b(subject|predicate|object|graph)\b(?=[,)(.])", ["subject", "predicate", "object", "graph"]),
    (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]),
    (r"\bas_ref\b", ["as_mut"]), (r"\.cloned\(\)", [""]), (r"!([a-z])", [r"\1"]),
    (r"\bAny(Subject|Predicate|Object|Graph)\b", ["AnySubject", "AnyPredicate", "AnyObject", "AnyGraph"]),
    (r"\bGiven(Subject|Predicate|Object|Graph)\b", ["GivenSubject", "GivenPredicate", "GivenObject", "GivenGraph"]),
    (r"\bextend\b", ["clone_from"]), (r"\bnot\b", [""]),
    (r"\"[^\"]{1,8}\"", ['""']), (r"'(.)'", ["' '"]), (r"\bany\b(?!\()", ["given"]), (r"\bsame_as_subject\b", ["same_as_predicate", "any"]), (r"\bsame_as_predicate\b", ["same_as_subject", "any"]),
    (r"\ba\b", ["b"]), (r"\bb\b", ["a"]), (r"\bforward\b", ["backward"]), (r"\bbackward\b", ["forward"]),
    (r"\bLangString\b", ["Any"]), (r"\bliterals_of\b", ["iris_of"]), (r"\biris_of\b", ["literals_of"]),
    (r"\bcontinue\b", ["break"]), (r"\bbreak\b", ["continue"]),
]
def mutants(path, text):
    cut = text.find("#[cfg(test)]")
    body = text if cut < 0 else text[:cut]
    off = 0
    depth_skip = False
    for n, line in enumerate(body.split("\n")):
        st = line.strip()
        if st and not st.startswith(("//", "#", "use ", "pub use ", "mod ", "pub mod ", "impl", "pub struct", "pub enum", "type ", "pub trait", "where", "pub type")) and not re.match(r"(pub )?(const )?(unsafe )?fn ", st):
            for rx, reps in SWAPS:
                for m in re.finditer(rx, line):
                    for rep in reps:
                        new = line[:m.start()] + m.expand(rep) + line[m.end():] if "\\1" in rep else line[:m.start()] + rep + line[m.end():]
                        if new != line:
                            yield (off, off + len(line), new, n + 1)
            if st.endswith(";") and not st.startswith(("let ", "return", "break", "continue", "}", "pub ", ")")) and st.count("(") == st.count(")") and "{" not in st:
                yield (off, off + len(line), "", n + 1)
            m = re.match(r"(\s*)if (.*) \{$", line)
            if m and not m.group(2).startswith("let "):
                yield (off, off + len(line), f"{m.group(1)}if true || ({m.group(2)}) {{", n + 1)
                yield (off, off + len(line), f"{m.group(1)}if false && ({m.group(2)}) {{", n + 1)
        off += len(line) + 1
def sh(c, **k):
    try:
        return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(c, 124, e.stdout or "", "timeout")
ORDER = ["C01", "C04", "C02", "C15", "C03", "C05", "C06", "C14", "C16", "C13", "C12", "C11", "C10", "C09", "C08", "C07"]
RUNS = {"C12": 6000, "C07": 6000, "C08": 8000, "C09": 6000, "C10": 6000}
def work(w, q, out, lock, stats):
    d = f"{BASE}/w{w}"
    env = dict(os.environ, CARGO_NET_OFFLINE="true", VERIF_DIR=f"{d}/vd", SIM_WORKERS="2", SIM_BUDGET_S="60", VERIF_SEED="1", TMPDIR=f"{d}/tmp")
    while True:
        try:
            f, a, b, new, line = q.get_nowait()
        except queue.Empty:
            return
        p = f"{d}/repo/{f}"
        orig = open(f"/repo/{f}").read()
        open(p, "w").write(orig[:a] + new + orig[b:])
        rec = dict(file=f, line=line, old=orig[a:b].strip(), new=new.strip())
        t0 = time.time()
        r = sh("cargo check --offline -q --features serde,contextual", cwd=f"{d}/repo", env=env, timeout=300)
        if r.returncode:
            res = "build"
        else:
            r = sh(f". /opt/vp/env.sh; cd {d}/repo && timeout 120 cargo test $ARGS -q -- --test-threads 2", env=env, timeout=400)
            if r.returncode:
                res = "tests"
            else:
                r = sh("cargo build --release --offline -q", cwd=f"{d}/sim", env=env, timeout=600)
                if r.returncode:
                    res = "sim-build"
                    rec["err"] = r.stderr[-600:]
                else:
                    res = "SURVIVED"
                    for c in ORDER:
                        r = sh(f"{d}/sim/target/release/rdf-sim check {c} quick", env=dict(env, SIM_RUNS=str(RUNS.get(c, 12000))), timeout=600)
                        if r.returncode:
                            m = re.search(r"violation class=(\S+) run=(\d+)", r.stdout)
                            res = f"{c}" if r.returncode == 1 else f"{c}:rc{r.returncode}"
                            if m:
                                rec["class"], rec["run"] = m.group(1), int(m.group(2))
                            break
        rec["result"] = res
        rec["s"] = round(time.time() - t0, 1)
        open(p, "w").write(orig)
        with lock:
            stats[res] = stats.get(res, 0) + 1
            if res not in ("build",):
                out.write(json.dumps(rec) + "\n")
                out.flush()
def main():
    os.makedirs(BASE, exist_ok=True)
    allm = []
    files = sh("git -C /repo ls-files 'src/*.rs' 'src/**/*.rs'").stdout.split()
    for f in sorted(set(files)):
        if not FILES.search(f) or "uuid" in f:
            continue
        t = open(f"/repo/{f}").read()
        seen = set()
        for m in mutants(f, t):
            if m[:3] not in seen:
                seen.add(m[:3])
                allm.append((f,) + m)
    random.Random(SEED).shuffle(allm)
    print(len(allm), "candidates", flush=True)
    done = set()
    if os.path.exists(OUT):
        for l in open(OUT):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["new"]))
    q = queue.Queue()
    for m in [m for m in allm if (m[0], m[4], m[3].strip()) not in done][:MAX]:
        q.put(m)
    for w in range(W):
        d = f"{BASE}/w{w}"
        if not os.path.exists(d):
            os.makedirs(d + "/vd/evidence"); os.makedirs(d + "/tmp")
            sh(f"cp -a /repo {d}/repo && cp -a /verif/sim {d}/sim")
        sh(f"cp -r /repo/src {d}/repo/; cp -r /verif/sim/src {d}/sim/; cp /verif/sim/Cargo.* {d}/sim/; sed -i 's#\"/repo\"#\"{d}/repo\"#' {d}/sim/Cargo.toml; cp /verif/known-findings.txt {d}/vd/")
    lock, stats = threading.Lock(), {}
    with open(OUT, "a") as out:
        ts = [threading.Thread(target=work, args=(w, q, out, lock, stats)) for w in range(W)]
        [t.start() for t in ts]
        while any(t.is_alive() for t in ts):
            time.sleep(60)
            print(time.strftime("%H:%M:%S"), q.qsize(), dict(sorted(stats.items())), flush=True)
main()
