#!/usr/bin/env python3
"""Development tool for the planted changes in seeded/ (no check uses it).

bugs.py verify ID...       in a scratch copy: patch applies, touches original lines, builds, stable tests pass, demo 0 / nonzero
bugs.py run ID... [-p Cxx,..|all]   applies it to /repo, runs the checks (default: its own property), undoes it
"""
import json, os, shutil, subprocess, sys, re, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
ENV = dict(os.environ, HOME="/root", CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")

def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def original(i):
    """every removed line (or, for pure additions, a neighbour) belongs to the base commit"""
    base = sh("git -C /repo rev-list --max-parents=0 HEAD")[1].split()[-1]
    d = open(os.path.join(S, i, "patch.diff")).read()
    cur, old, rem = None, 0, {}
    for l in d.splitlines():
        if l.startswith("--- a/"): cur = l[6:]
        m = re.match(r"@@ -(\d+)", l)
        if m: old = int(m.group(1)); continue
        if l.startswith("-") and not l.startswith("---"): rem.setdefault(cur, []).append(old); old += 1
        elif l.startswith(" "): old += 1
    n = 0
    for f, ls in rem.items():
        b = sh("git -C /repo blame -s --no-abbrev HEAD -- " + f)[1].splitlines()
        n += sum(1 for k in ls if base[:12] in b[k - 1])
    return n, sum(map(len, rem.values()))

def verify(i, full=True):
    d = "/tmp/seedcheck/" + i
    shutil.rmtree(d, ignore_errors=True); os.makedirs(os.path.dirname(d), exist_ok=True)
    sh("cp -a /repo " + d)
    try:
        rc, o = sh("git apply " + os.path.join(S, i, "patch.diff"), d)
        if rc: return "does not apply: " + o
        n, t = original(i)
        rc, o = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 4", d)
        if rc: return "tests fail: " + "\n".join(x for x in o.splitlines() if "FAILED" in x or "error" in x or "panicked" in x)[:1500]
        dd = "/tmp/seedcheck/demo-" + i
        shutil.rmtree(dd, ignore_errors=True); shutil.copytree(os.path.join(S, i), dd)
        rc, o = sh("bash %s/demo.sh" % dd, d)
        rc2, o2 = sh("bash %s/demo.sh" % dd, "/repo")
        shutil.rmtree(dd)
        if rc == 0: return "demo passes with the change: " + o[-600:]
        if rc2: return "demo fails on the clean tree: " + o2[-1500:]
        return "ok (original lines %d/%d) demo: %s" % (n, t, [x for x in o.splitlines() if x.strip()][-3:])
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run(i, props):
    p = os.path.join(S, i, "patch.diff")
    rc, o = sh("git -C /repo apply " + p)
    if rc: return print(i, "does not apply", o)
    try:
        for c in props:
            t = time.time()
            rc, o = sh("python3 tools/check.py " + c, V, 1500)
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            print("%s %s rc=%d %.0fs %s" % (i, c, rc, time.time() - t, (v or [""])[0]), flush=True)
            if rc == 2: print(o[-800:])
    finally:
        sh("git -C /repo checkout -- .")

if __name__ == "__main__":
    a = sys.argv[2:]
    props = None
    if "-p" in a:
        k = a.index("-p"); props = a[k + 1].split(","); a = a[:k] + a[k + 2:]
    ids = a or sorted(os.listdir(S))
    if sys.argv[1] == "verify":
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(4) as ex:
            for i, r in zip(ids, ex.map(verify, ids)): print(i, r, flush=True)
    else:
        for i in ids:
            q = props or [json.load(open(os.path.join(S, i, "meta.json")))["property"]]
            if q == ["all"]: q = ["C%02d" % k for k in range(1, 21)]
            run(i, q)
