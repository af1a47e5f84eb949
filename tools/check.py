#!/usr/bin/env python3
"""Decides one property.

check.py C01                 tier and seed from VERIF_TIER (quick, thorough) and VERIF_SEED
check.py --replay FILE       runs a reported violation again, on the current tree

Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: no answer (tools, build, or nothing explored)."""
import concurrent.futures as cf, fcntl, hashlib, json, os, random, re, shutil, signal, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True
import decl, gen, schemas
from profiles import P

WORK = os.path.join(V, "work")
ENV = dict(os.environ)
ENV.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0",
           CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0",
           PATH="/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
BUILDS = {  # cargo flags, folder, debug feature, debug assertions
    "dev": ([], "debug", True, True),
    "devnd": (["--no-default-features"], "debug", False, True),
    "rel": (["--profile", "rel"], "rel", True, False),
    "relnd": (["--profile", "rel", "--no-default-features"], "rel", False, False),
}
HARNESS_LIMIT = 600

class NoAnswer(Exception): pass

def log(*a): print(*a, flush=True)

class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed, self.t0 = pid, tier, seed, time.time()
        self.prof = P[pid]
        self.dir = os.path.join(WORK, "run", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.vdir = os.path.join(WORK, "violations", pid)
        shutil.rmtree(self.vdir, ignore_errors=True)
        self.lock = threading.Lock()
        self.violations, self.errors, self.known = [], [], []
        self.stop = threading.Event()
        self.legs, self.samples = [], []
        self.states = self.trans = self.traces = 0
        self.kinds, self.stats = {}, {}
        self.bins, self.rlib = {}, {}
        self.schema_path = {}
        self.random, self.driven = [], []
        self.limit = 780 if tier == "quick" else 6 * 3600
        self.cores = threading.BoundedSemaphore(4)
        self.findings = known_findings(pid)

    # ------------------------------------------------------------------------------------ results
    def violation(self, kind, what, data):
        """data identifies the failing history; its digest is what a known finding names"""
        dig = hashlib.sha256(json.dumps([kind, data.get("schema"), data.get("ops") or data.get("behaviour") or data.get("evs")],
                                        sort_keys=True).encode()).hexdigest()[:16]
        with self.lock:
            if dig in self.findings:
                self.known.append((dig, self.findings[dig]))
                return
            os.makedirs(self.vdir, exist_ok=True)
            if data.get("schema") in self.random:
                keep = os.path.join(self.vdir, data["schema"] + ".json")
                shutil.copy(self.schema_path[data["schema"]], keep)
                data = dict(data, schema_path=keep)
            path = os.path.join(self.vdir, "%03d.json" % len(self.violations))
            open(path, "w").write(json.dumps(dict(property=self.pid, kind=kind, what=what, digest=dig, seed=self.seed, **data), indent=1))
            self.violations.append((path, what))
        self.stop.set()

    def error(self, what):
        with self.lock: self.errors.append(what)
        self.stop.set()

    # ------------------------------------------------------------------------------------ building
    def need_schemas(self):
        s = set()
        for x in self.mcs() + self.traces_legs(): s.add(x["schema"])
        for a, b in self.prof.get("agree", []): s |= {a, b}
        s |= set(self.prof.get("schemas", []))
        for n in s: self.schema_path.setdefault(n, os.path.join(V, "schemas", n + ".json"))
        k = 0 if self.tier == "quick" else 1
        n, more = self.prof.get("random_schemas", (0, 0))[k], self.prof.get("random_more", (0, 0))[k]
        if n:
            d = os.path.join(self.dir, "rs")
            os.makedirs(d)
            for x in schemas.cover(self.seed, n + more, ["rs%d" % i for i in range(n + more)])[0]:
                name = x["name"]
                schemas.put("%s/%s.json" % (d, name), x)
                schemas.put("%s/%so.json" % (d, name), schemas.writeout(x, name + "o"))
                twins = self.prof.get("random_twins") and len(self.random) < n
                for y in (name, name + "o")[:2 if twins else 1]: self.schema_path[y] = "%s/%s.json" % (d, y)
                self.random.append(name)
            self.driven = self.random[:n]

    def mcs(self):
        rs = [dict(self.prof["random_mc"], schema=n) for n in self.random] if "random_mc" in self.prof else []
        return self.prof.get("mc", []) + (self.prof.get("deep_mc", []) if self.tier == "thorough" else []) + rs
    def traces_legs(self):
        single = [] if self.prof.get("random_twins") else [dict(self.prof["random_leg"], schema=n) for n in self.driven]
        return self.prof.get("trace", []) + single
    def builds(self):
        return sorted({"dev"} | {t["build"] for t in self.traces_legs()} | set(self.prof.get("builds", [])))

    def build(self, name):
        """copy of the harness with the declarations of this check's schemas, built against /repo"""
        flags, folder, _, _ = BUILDS[name]
        h = os.path.join(self.dir, "h")
        target = os.path.join(WORK, "target", name)
        os.makedirs(target, exist_ok=True)
        lim = max(60, self.limit - (time.time() - self.t0))
        with open(os.path.join(target, ".ours"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            r = subprocess.run(["cargo", "build", "--offline", "--message-format=json-render-diagnostics", "--manifest-path", h + "/Cargo.toml", "--target-dir", target] + flags,
                               env=ENV, capture_output=True, text=True, timeout=lim)
            if r.returncode == 0:
                for l in r.stdout.splitlines():
                    m = json.loads(l)
                    if m["reason"] == "compiler-artifact" and m["target"]["name"] == "ttgraph":
                        self.rlib[name] = [f for f in m["filenames"] if f.endswith(".rlib")][0]
                out = os.path.join(self.dir, "bin-" + name)
                shutil.copy2(os.path.join(target, folder, "harness"), out)
                self.bins[name] = out
                return
            lib = subprocess.run(["cargo", "build", "--offline", "--manifest-path", h + "/Cargo.toml", "--target-dir", target, "-p", "ttgraph"] + flags,
                                 env=ENV, capture_output=True, text=True, timeout=lim)
        errs = "\n".join(x for x in r.stderr.splitlines() if not x.startswith("   Compiling"))[-6000:]
        declares = self.pid in ("C12", "C14") and lib.returncode == 0
        config = self.pid == "C19" and name != "dev" and "dev" in self.bins
        if declares or config:
            self.violation("build", "declarations that are accepted on the unchanged tree do not compile (%s)" % name, dict(build=name, errors=errs, ops=[name]))
        else:
            self.error("the harness does not build (%s):\n%s" % (name, errs))

    def prepare(self):
        h = os.path.join(self.dir, "h")
        shutil.copytree(os.path.join(V, "harness"), h, ignore=shutil.ignore_patterns("target*", "gen"))
        gen.main(os.path.join(h, "src", "gen"), [self.schema_path[k] for k in sorted(self.schema_path)])

    # ------------------------------------------------------------------------------------ tools
    def tlc(self, name, module, cfg, env, workers=2, heap="3g"):
        """-> (exit code, output file); the caller holds a core token"""
        d = os.path.join(self.dir, "tlc-" + name)
        os.makedirs(d)
        open(os.path.join(d, "M.cfg"), "w").write(cfg)
        out = os.path.join(d, "out")
        e = dict(ENV, **env)
        lim = self.limit - (time.time() - self.t0)
        with open(out, "w") as f:
            try:
                r = subprocess.run(["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", "/opt/veriftools/tla/*", "tlc2.TLC",
                                    "-workers", str(workers), "-metadir", d + "/meta", "-noGenerateSpecTE", "-config", d + "/M.cfg", module + ".tla"],
                                   cwd=os.path.join(V, "spec"), env=e, stdout=f, stderr=subprocess.STDOUT, timeout=max(10, lim))
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = -999
        shutil.rmtree(d + "/meta", ignore_errors=True)
        return rc, out

    def count(self, out):
        g = d = 0
        for l in open(out, errors="replace"):
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", l)
            if m: g, d = int(m[1]), int(m[2])
        with self.lock:
            self.trans += g
            self.states += d
        return g, d

    def harness(self, build, args, out=None):
        """-> exit code, stdout"""
        lim = min(HARNESS_LIMIT if self.tier == "quick" else 4 * 3600, max(10, self.limit - (time.time() - self.t0)))
        try:
            r = subprocess.run([self.bins[build]] + args, capture_output=True, text=True, timeout=lim)
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired:
            return -999, "", ""

    # ------------------------------------------------------------------------------------ model checking
    def mc(self, i, m, builds=("dev",), types=True):
        if self.stop.is_set(): return
        name = "mc%d%s" % (i, "" if types else "nt")
        b = os.path.join(self.dir, name + ".json")
        open(b, "w").write(json.dumps(m["bounds"]))
        cfg = open(os.path.join(V, "spec", "MC.cfg")).read().replace("TypeChecks = TRUE", "TypeChecks = " + ("TRUE" if types else "FALSE"))
        with self.cores:
            if self.stop.is_set(): return
            t = time.time()
            rc, out = self.tlc(name, "MC", cfg, dict(TT_SCHEMA=self.schema_path[m["schema"]], TT_MC=b), workers=2, heap="5g" if self.tier == "quick" else "12g")
            t = time.time() - t
        if rc != 0:
            self.error("model checking of %s ended with %d: %s" % (m["schema"], rc, tail(out)))
            return
        g, d = self.count(out)
        leg = dict(leg="model", schema=m["schema"], bounds=m["bounds"], states=d, transitions=g, tlc_s=round(t, 1))
        with self.lock: self.legs.append(leg)
        return name, out, leg

    def replay_mc(self, m, name, out, leg, builds):
        if m["checked"]: return self.replay_observed(m, name, out, leg)
        leg["behaviours"] = 0
        for bd in builds:
            parts = 3 if self.tier == "quick" else 6
            def one(k):
                with self.cores:
                    if self.stop.is_set(): return None
                    bad = os.path.join(self.dir, "%s-%s-%d.bad" % (name, bd, k))
                    cur = bad + ".cur"
                    return self.harness(bd, ["behaviours", "--schema", m["schema"], "--in", out, "--bad", bad, "--part", "%d/%d" % (k, parts), "--cur", cur]) + (bad, cur)
            with cf.ThreadPoolExecutor(parts) as ex: rs = list(ex.map(one, range(parts)))
            for r in rs:
                if r is None: continue
                rc, so, se, bad, cur = r
                if rc == -999: self.error("replay of behaviours took too long"); continue
                if rc != 0:
                    if rc == 4: self.error("harness: " + se[-400:]); continue
                    beh = json.loads(open(cur).read()) if os.path.exists(cur) else {}
                    self.violation("behaviour", "the program ended (%d) in this behaviour" % rc, dict(schema=m["schema"], build=bd, behaviour=beh))
                    continue
                j = json.loads(so)
                with self.lock:
                    self.traces += j["behaviours"]
                    leg["behaviours"] += j["behaviours"]
                if os.path.exists(bad):
                    for l in list(open(bad))[:3]:
                        x = json.loads(l)
                        if "behaviour" in x: self.violation("behaviour", x["why"], dict(schema=m["schema"], build=bd, behaviour=x["behaviour"]))
                        else: self.violation("behaviour", "a call did not come back", dict(schema=m["schema"], build=bd, behaviour=x))
        if leg["behaviours"] == 0 and not self.stop.is_set(): self.error("no behaviours for " + m["schema"])
        self.sample(out)
        if self.tier == "thorough" and not self.violations: os.remove(out)

    def sample(self, out):
        with self.lock:
            if any("behaviour" in s for s in self.samples): return
            last = None
            for k, l in enumerate(open(out, errors="replace")):
                if l.startswith('"{'):
                    last = l
                    if k > 5000: break
            if last: self.samples.append(dict(behaviour=json.loads(json.loads(last))["steps"]))

    def replay_observed(self, m, name, out, leg):
        """behaviours extended by an observation; the recorded log is judged by TraceTT"""
        lines, n = [], 0
        for l in open(out, errors="replace"):
            if not l.startswith('"{'): continue
            n += 1
            st = json.loads(json.loads(l))["steps"]
            ops = [s["op"] for s in st]
            last = ops[-1]
            if m["checked"] == "checked":
                if last["o"] != "Commit": continue
                ops[-1] = dict(o="CommitC", g=last["g"], t=last["t"], fail=[])
            else:
                if st[-1]["res"] != "ok" or last["o"] != "Commit": continue
                ops.append(dict(o="Views" if m["checked"] == "views" else "Reflect", g=last["g"]))
            lines.append(json.dumps(ops))
        if m["limit"] and len(lines) > m["limit"]:
            # evenly spread over the order in which TLC found them
            k = len(lines) / m["limit"]
            lines = [lines[int(i * k)] for i in range(m["limit"])]
        leg["behaviours"] = n
        chunk = 1200 if self.tier == "quick" else 6000
        parts = [lines[i:i + chunk] for i in range(0, len(lines), chunk)]
        leg["observed"] = len(lines)
        if not lines: return self.error("no behaviours for " + m["schema"])
        def one(k):
            if self.stop.is_set(): return
            base = os.path.join(self.dir, "%s-%d" % (name, k))
            open(base + ".ops", "w").write("\n".join(parts[k]) + "\n")
            with self.cores:
                rc, so, se = self.harness("dev", ["replay", "--schema", m["schema"], "--in", base + ".ops", "--out", base + ".nd"])
            if rc != 0: return self.crash(rc, se, m["schema"], "dev", dict(ops=["replay", base]))
            self.judge(base, m["schema"], "dev", "strict" if m["checked"] == "checked" else "loose", m["checked"] == "checked", leg)
        with cf.ThreadPoolExecutor(4) as ex: list(ex.map(one, range(len(parts))))

    def crash(self, rc, se, schema, build, data):
        if rc == -999: return self.error("the harness took too long")
        if rc == 4: return self.error("harness: " + se[-400:])
        self.violation("crash", "the program ended (%d)" % rc, dict(schema=schema, build=build, **data))

    # ------------------------------------------------------------------------------------ recorded histories
    def judge(self, base, schema, build, mode, ids, leg, types=None):
        """TLC accepts every history of base.nd, or there is a violation"""
        _, _, feat, asserts = BUILDS[build]
        B = lambda x: "TRUE" if x else "FALSE"
        cfg = ("SPECIFICATION Spec\nCONSTANTS\n Mode = \"%s\"\n TypeChecks = %s\n Asserts = %s\n JudgeIds = %s\n Universal = %s\nINVARIANT Inv\nALIAS Where\n"
               % (mode, B(feat), B(asserts), B(ids), B(mode == "strict")))
        with self.cores:
            if self.stop.is_set(): return
            t = time.time()
            rc, out = self.tlc(os.path.basename(base), "TraceTT", cfg, dict(TT_SCHEMA=self.schema_path[schema], TT_TRACE=base + ".nd"))
            t = time.time() - t
        if rc == 0:
            g, d = self.count(out)
            n = sum(1 for _ in open(base + ".nd"))
            with self.lock:
                self.traces += n
                leg["histories"] = leg.get("histories", 0) + n
                leg["states"] = leg.get("states", 0) + d
                leg["tlc_s"] = round(leg.get("tlc_s", 0) + t, 1)
                if not any("history" in s for s in self.samples):
                    self.samples.append(dict(schema=schema, history=json.loads(open(base + ".nd").readline())["evs"][:40]))
            if self.tier == "thorough":
                for x in (".nd", ".ops"):
                    if os.path.exists(base + x): os.remove(base + x)
            return True
        h, l = where(out)
        if rc in (11, 12, 75, 76) and h:
            evs = json.loads(nth(base + ".nd", h - 1))["evs"]
            ops = nth(base + ".ops", h - 1) if os.path.exists(base + ".ops") else None
            self.violation("history", rejection(out, rc), dict(schema=schema, build=build, mode=mode, ids=ids, at=l, evs=evs[:l],
                           ops=json.loads(ops) if ops else None))
        else:
            self.error("trace validation of %s ended with %d: %s" % (schema, rc, tail(out)))
        return False

    def trace(self, i, t):
        """records histories and has them judged"""
        n = t["n"]
        rounds = 1 if self.tier == "quick" else t.get("rounds", 8)
        leg = dict(leg="histories", schema=t["schema"], build=t["build"], mode=t["mode"], profile=t["profile"])
        with self.lock: self.legs.append(leg)
        pf = os.path.join(self.dir, "tr%d.profile" % i)
        open(pf, "w").write(json.dumps(t["profile"]))
        # a chunk is a unit of work for one TLC
        per = n if self.tier == "quick" else max(n, 150)
        chunks = [(self.seed * 1000 + r * 37 + i, per) for r in range(rounds)]
        for k, (seed, cnt) in enumerate(chunks):
            if self.stop.is_set(): return
            if time.time() - self.t0 > self.limit * 0.8 and k: break
            base = os.path.join(self.dir, "tr%d-%d" % (i, k))
            if self.record(base, t, seed, cnt, pf): self.judge(base, t["schema"], t["build"], t["mode"], t["ids"], leg)

    def record(self, base, t, seed, cnt, pf, schema=None):
        schema = schema or t["schema"]
        with self.cores:
            if self.stop.is_set(): return False
            rc, so, se = self.harness(t["build"], ["record", "--schema", schema, "--seed", str(seed), "--count", str(cnt), "--profile", pf,
                                              "--out", base + ".nd", "--ops", base + ".ops", "--cur", base + ".cur"])
        if rc == 3:
            self.violation("hang", "a call did not come back", dict(schema=schema, build=t["build"], ops=[open(base + ".cur").read()], profile=t["profile"]))
            return False
        if rc != 0:
            cur = open(base + ".cur").read() if os.path.exists(base + ".cur") else "?"
            self.crash(rc, se, schema, t["build"], dict(ops=[cur], profile=t["profile"], history_seed=cur))
            return False
        j = json.loads(so)
        with self.lock:
            for k, v in j["kinds"].items(): self.kinds[k] = self.kinds.get(k, 0) + v
            for k, v in j["stats"].items(): self.stats[k] = self.stats.get(k, 0) + v
        return True

    def agree(self, name, a, b, same, info):
        """the two logs tell the same story"""
        cfg = "SPECIFICATION Spec\nCONSTANTS\n SameChecks = %s\nINVARIANT SameNumber\nALIAS Where\n" % ("TRUE" if same else "FALSE")
        with self.cores:
            if self.stop.is_set(): return
            rc, out = self.tlc("agree-" + name, "Agree", cfg, dict(TT_A=a, TT_B=b))
        if rc == 0:
            g, d = self.count(out)
            with self.lock: self.legs.append(dict(leg="agreement", of=name, states=d))
            return
        h, l = where(out)
        if rc in (11, 12, 75, 76) and h:
            self.violation("agreement", rejection(out, rc), dict(of=name, at=l, evs=json.loads(nth(a, h - 1))["evs"][:l], other=json.loads(nth(b, h - 1))["evs"][:l], **info))
        else:
            self.error("agreement of %s ended with %d: %s" % (name, rc, tail(out)))

    def twins(self, i, a, b, t):
        """C12: a grouped schema and its written-out twin go through the same histories"""
        pf = os.path.join(self.dir, "tw%d.profile" % i)
        open(pf, "w").write(json.dumps(t["profile"]))
        rounds = 1 if self.tier == "quick" else 6
        for r in range(rounds):
            bases = []
            for s in (a, b):
                base = os.path.join(self.dir, "tw%d-%d-%s" % (i, r, s))
                if not self.record(base, t, self.seed * 1000 + r * 37 + i, t["n"], pf, s): return
                bases.append(base)
            leg = dict(leg="twins", schema=a, schema2=b, profile=t["profile"])
            with self.lock: self.legs.append(leg)
            self.agree("%s-%s-%d" % (a, b, r), bases[0] + ".nd", bases[1] + ".nd", True, dict(schema=a, schema2=b, build="dev"))
            for s, base in zip((a, b), bases): self.judge(base, s, "dev", "strict", True, leg)

    def across(self, i, t):
        """C19: histories of the dev build are executed again in every other build"""
        pf = os.path.join(self.dir, "ac%d.profile" % i)
        open(pf, "w").write(json.dumps(t["profile"]))
        rounds = 1 if self.tier == "quick" else 8
        for r in range(rounds):
            if self.stop.is_set(): return
            base = os.path.join(self.dir, "ac%d-%d-dev" % (i, r))
            if not self.record(base, t, self.seed * 1000 + r * 37 + i, t["n"], pf): return
            def one(bd):
                if self.stop.is_set(): return
                o = os.path.join(self.dir, "ac%d-%d-%s" % (i, r, bd))
                leg = dict(leg="histories", schema=t["schema"], build=bd, mode="strict", profile=t["profile"])
                with self.lock: self.legs.append(leg)
                if bd != "dev":
                    shutil.copy(base + ".ops", o + ".ops")
                    with self.cores:
                        rc, so, se = self.harness(bd, ["replay", "--schema", t["schema"], "--in", o + ".ops", "--out", o + ".nd"])
                    if rc != 0: return self.crash(rc, se, t["schema"], bd, dict(ops=["replay", o]))
                    shutil.copy(base + ".nd", o + ".dev")
                    self.agree(os.path.basename(o), o + ".dev", o + ".nd", BUILDS[bd][2:] == BUILDS["dev"][2:], dict(schema=t["schema"], build=bd))
                else:
                    o2 = o + "j"
                    for x in (".nd", ".ops"): shutil.copy(o + x, o2 + x)
                    o = o2
                self.judge(o, t["schema"], bd, "strict", True, leg)
            with cf.ThreadPoolExecutor(4) as ex: list(ex.map(one, self.prof["builds"]))

    # ------------------------------------------------------------------------------------ declarations
    def rustc(self, src, out, *flags):
        r = subprocess.run(["rustc", "--edition", "2021", "-C", "debuginfo=0", "-L", "dependency=" + os.path.dirname(self.rlib["dev"]),
                            "--extern", "ttgraph=" + self.rlib["dev"], *flags, src, "-o", out],
                           env=ENV, capture_output=True, text=True, timeout=max(60, self.limit - (time.time() - self.t0)))
        return r.returncode == 0, r.stderr

    def accepted(self, name, d, part=""):
        """does this declaration compile?"""
        base = os.path.join(self.dir, "decl-%s%s" % (name, part))
        prelude = open(os.path.join(V, "harness", "decl.rs")).read()
        open(base + ".rs", "w").write(decl.program(prelude, [(0, d)]))
        ok, err = self.rustc(base + ".rs", base + ".rmeta", "--emit=metadata")
        for x in (".rs", ".rmeta"):
            if os.path.exists(base + x): os.remove(base + x)
        return ok, err

    def declarations(self, p):
        """every declaration of spec/Decl.tla (or a sample): accepted or rejected as specified, and with the specified effect"""
        k = 0 if self.tier == "quick" else 1
        b = os.path.join(self.dir, "decl.json")
        open(b, "w").write(json.dumps(dict(sites=p["sites"], tables=p["tables"])))
        with self.cores:
            rc, out = self.tlc("decl", "Decl", open(os.path.join(V, "spec", "Decl.cfg")).read(), dict(TT_DECL=b))
        if rc != 0: return self.error("Decl ended with %d: %s" % (rc, tail(out)))
        g, n = self.count(out)
        rng = random.Random(self.seed)
        js = sorted((l for l in open(out) if l.startswith('"{')))
        js = [json.loads(json.loads(l)) for l in js]
        def some(ok, n):
            # declarations of one statement first: half of the sample
            forms = [j for j in js if j["ok"] == ok and j["site"] in ("forms", "group")]
            one = [j for j in js if j["ok"] == ok and j["site"] not in ("forms", "group") and len(j["d"]["bidi"] + j["d"]["ltypes"]) < 2]
            two = [j for j in js if j["ok"] == ok and len(j["d"]["bidi"] + j["d"]["ltypes"]) > 1]
            rng.shuffle(one)
            rng.shuffle(two)
            a = min(len(one), max(n // 2, n - len(two)))
            return (forms + one[:a] + two[:n - a]) if n else []
        good, bad = some(True, p["valid"][k]), some(False, p["invalid"][k])
        leg = dict(leg="declarations", sites=p["sites"], states=n, accepted=0, rejected=0, tables=0)
        with self.lock:
            self.legs.append(leg)
            self.samples.append(dict(declaration=good[0]))
        prelude = open(os.path.join(V, "harness", "decl.rs")).read()
        def wrong(d, what, err): self.violation("declaration", what, dict(declaration=d, source=decl.enum(d), errors=err[-3000:], ops=[d]))
        def batch(i):
            if self.stop.is_set(): return
            ds = list(enumerate(good))[i::nb]
            base = os.path.join(self.dir, "decls-%d" % i)
            open(base + ".rs", "w").write(decl.program(prelude, [(k, j["d"]) for k, j in ds]))
            with self.cores: ok, err = self.rustc(base + ".rs", base + ".bin", *([] if p["tables"] else ["--emit=metadata"]))
            if not ok:
                for k, j in ds:
                    ok1, err1 = self.accepted("v%d" % k, j["d"])
                    if not ok1: return wrong(j["d"], "a declaration whose names all exist is rejected", err1)
                return self.error("declarations do not compile together: " + err[-1500:])
            with self.lock:
                leg["accepted"] += len(ds)
                self.traces += len(ds)
            if not p["tables"]: return
            with self.cores: r = subprocess.run([base + ".bin"], capture_output=True, text=True, timeout=HARNESS_LIMIT)
            os.remove(base + ".bin")
            if r.returncode: return self.violation("crash", "probing declarations ended with %d" % r.returncode, dict(ops=[i], errors=r.stderr[-1000:]))
            got = {}
            for l in r.stdout.splitlines():
                k, rest = l.split(" ", 1)
                a, c = rest.rsplit(":", 1)
                got.setdefault(int(k), {})[a] = c
            for k, j in ds:
                want = decl.table(j)
                if got[k] != want:
                    a = [x for x in want if want[x] != got[k].get(x)][0]
                    return wrong(j["d"], "setting %s gives %r, the declaration means %r" % (a, got[k].get(a), want[a]), "")
            with self.lock: leg["tables"] += len(ds)
        def reject(i):
            if self.stop.is_set(): return
            with self.cores: ok, err = self.accepted("i%d" % i, bad[i]["d"])
            if ok: return wrong(bad[i]["d"], "a declaration that names something that does not exist is accepted", "")
            with self.lock:
                leg["rejected"] += 1
                self.traces += 1
        nb = max(4, len(good) // 60)
        with cf.ThreadPoolExecutor(8) as ex:
            for f in [ex.submit(batch, i) for i in range(nb)] + [ex.submit(reject, i) for i in range(len(bad))]: f.result()
        if not self.stop.is_set() and (not leg["accepted"] or (bad and not leg["rejected"])): self.error("no declarations")

    # ------------------------------------------------------------------------------------
    def run(self):
        self.need_schemas()
        self.prepare()
        across = "builds" in self.prof
        with cf.ThreadPoolExecutor(48) as ex:
            built = {b: ex.submit(self.build, b) for b in self.builds() if b == "dev"}
            if across or len(self.builds()) > 1:
                for b in self.builds():
                    if b != "dev": built[b] = ex.submit(lambda b=b: (built["dev"].result() if across else None, self.build(b)))
            def mc_leg(i, m, bds, types):
                r = self.mc(i, m, bds, types)
                for b in bds: built[b].result()
                if r and not self.stop.is_set(): self.replay_mc(m, *r, bds)
            def leg(bds, f, *a):
                for b in bds: built[b].result()
                if not self.stop.is_set(): f(*a)
            fs = []
            if "decl" in self.prof: fs.append(ex.submit(leg, ["dev"], self.declarations, self.prof["decl"]))
            for i, m in enumerate(self.mcs()):
                if across:
                    fs.append(ex.submit(mc_leg, i, m, [b for b in self.prof["builds"] if BUILDS[b][2]], True))
                    fs.append(ex.submit(mc_leg, i, m, [b for b in self.prof["builds"] if not BUILDS[b][2]], False))
                else:
                    fs.append(ex.submit(mc_leg, i, m, ["dev"], True))
            for i, t in enumerate(self.traces_legs()):
                if across: fs.append(ex.submit(leg, self.prof["builds"], self.across, i, t))
                elif any(t["schema"] in p for p in self.prof.get("agree", [])): pass
                else: fs.append(ex.submit(leg, [t["build"]], self.trace, i, t))
            tw = [(a, b, next(t for t in self.traces_legs() if t["schema"] == a)) for a, b in self.prof.get("agree", [])]
            for n in self.driven if self.prof.get("random_twins") else []: tw.append((n, n + "o", dict(self.prof["random_leg"], schema=n)))
            for i, (a, b, t) in enumerate(tw): fs.append(ex.submit(leg, ["dev"], self.twins, i, a, b, t))
            for f in fs + list(built.values()):
                try: f.result()
                except Exception as e: self.error("%s: %s" % (type(e).__name__, e))
        if not self.violations and not self.errors:
            lack = [k for k in self.prof.get("need", []) if not self.kinds.get(k)] + [k for k in self.prof.get("stats", []) if not self.stats.get(k)]
            if lack: self.errors.append("nothing explored of: " + ", ".join(lack))
            for l in self.legs:
                if l["leg"] in ("histories", "twins") and not l.get("histories"): self.errors.append("no history was judged: %s" % l["schema"])
        self.evidence()
        for dig, text in self.known: log("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        for path, what in self.violations[:5]:
            log("%s: %s" % (self.pid, what[:600]))
            log("VIOLATION property=%s replay=%s" % (self.pid, path))
        for e in self.errors[:5]: log("ERROR %s: %s" % (self.pid, e))
        rc = 1 if self.violations else 2 if self.errors else 0
        log("%s %s seed=%d: %s (%d states, %d behaviours and histories of the code, %.0f s)" % (
            self.pid, self.tier, self.seed, ["held", "VIOLATED", "no answer"][rc], self.states, self.traces, time.time() - self.t0))
        if rc == 0 and not os.environ.get("KEEP"): shutil.rmtree(self.dir, ignore_errors=True)
        return rc

    def evidence(self):
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        for l in self.legs:
            if "profile" in l: l["profile"] = {k: v for k, v in l["profile"].items()}
        open(os.path.join(V, "evidence", self.pid + ".json"), "w").write(json.dumps(dict(
            property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
            coverage=dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.traces, samples=self.samples,
                          events=self.kinds, outcomes=self.stats, legs=self.legs, exhaustive=False,
                          explanation="states and transitions: TLC, over the bounded models (every behaviour they print is executed on the real code and compared) "
                                      "and over the recorded histories of the real code (every event has to be a step of the specification)"),
            assumptions=["the harness reports calls and their results faithfully", "TLC", "bounds of the legs; random histories sample the rest"],
            wall_s=round(time.time() - self.t0, 1), violations=len(self.violations)), indent=1))

def known_findings(pid):
    r = {}
    p = os.path.join(V, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) digest=(\S+) (.*)", l)
        if m and m[1] == pid: r[m[2]] = m[3]
    return r

def tail(p): return " | ".join([x.strip()[:300] for x in open(p, errors="replace") if not x.startswith('"{')][-25:])
def nth(p, k):
    for i, l in enumerate(open(p)):
        if i == k: return l
def where(out):
    t = open(out, errors="replace").read()
    a, b = re.findall(r"\bh = (\d+)", t), re.findall(r"\bl = (\d+)", t)
    m = re.findall(r'<< ?"REJECT", (\d+), (\d+)', t)
    if m: return int(m[0][0]), int(m[0][1])
    return (int(a[-1]), int(b[-1])) if a and b else (0, 0)
def rejection(out, rc):
    t = open(out, errors="replace").read()
    m = re.search(r'<< ?"REJECT".*?>>\n', t, re.S)
    if m: return " ".join(m[0].split())
    e = [x for x in t.splitlines() if x.startswith("Error")]
    return "rejected (%d): %s" % (rc, " ".join(e)[:500])

def replay(path):
    """a saved violation, executed again on the current tree"""
    d = json.load(open(path))
    c = Check.__new__(Check)
    pid = d["property"]
    tmp = "replay-" + pid
    P.setdefault(tmp, dict(P[pid], mc=[], deep_mc=[], trace=[], agree=[], random_schemas=(0, 0), schemas=["mini"]))
    c.__init__(tmp, "quick", d.get("seed", 1))
    c.pid = pid
    c.findings = {}
    for s in [d.get("schema"), d.get("schema2")]:
        if s: c.schema_path[s] = d.get("schema_path") or os.path.join(V, "schemas", s + ".json")
    if not c.schema_path: c.schema_path["mini"] = os.path.join(V, "schemas", "mini.json")
    c.prepare()
    bd = d.get("build", "dev")
    c.build(bd)
    if c.errors or c.violations: log(c.errors, c.violations); return 2 if c.errors else 1
    base = os.path.join(c.dir, "one")
    if d["kind"] == "declaration":
        print(d["source"])
        bad = "accepted" in d["what"]
        if "setting" in d["what"]: log("run the check again for: " + d["what"]); return 2
        if c.accepted("replay", d["declaration"])[0] == bad:
            log("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        return 0
    if d["kind"] == "behaviour":
        open(base, "w").write(json.dumps(d["behaviour"]) + "\n")
        rc, so, se = c.harness(bd, ["behaviours", "--schema", d["schema"], "--in", base, "--bad", base + ".bad"])
        log(so)
        if rc != 0 or json.loads(so)["bad"]:
            if os.path.exists(base + ".bad"): log(json.loads(open(base + ".bad").readline())["why"])
            log("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        return 0
    if not d.get("ops") or not isinstance(d["ops"][0], dict):
        log("this violation cannot be executed again from the file alone: " + d["what"])
        return 2
    open(base + ".ops", "w").write(json.dumps(d["ops"]) + "\n")
    rc, so, se = c.harness(bd, ["replay", "--schema", d["schema"], "--in", base + ".ops", "--out", base + ".nd"])
    c.judge(base, d["schema"], bd, d.get("mode", "strict"), d.get("ids", True), {})
    for _, what in c.violations:
        log(what[:2000])
        log("VIOLATION property=%s replay=%s" % (pid, path))
    return 1 if c.violations else 0

if __name__ == "__main__":
    if sys.argv[1] == "--replay": sys.exit(replay(sys.argv[2]))
    tier = os.environ.get("VERIF_TIER", "quick")
    try: sys.exit(Check(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1"))).run())
    except Exception as e:
        import traceback
        traceback.print_exc()
        log("ERROR %s: %s" % (sys.argv[1], e))
        sys.exit(2)
