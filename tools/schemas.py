#!/usr/bin/env python3
"""Schemas: writing groups out, and random grouped schemas.

schemas.py writeout IN.json OUT.json NAME     the same schema with every group written out by hand
schemas.py random SEED OUTDIR NAME            NAME.json and NAMEo.json (its written-out twin)"""
import json, random, sys

def exp_v(s, x): return s["vgroups"][x] if x in s["vgroups"] else [x]
def exp_l(s, v, x):
    ls = s["variants"][v]["links"]
    return [x] if x in ls else [l for l in ls if x in ls[l]["groups"]]

def writeout(s, name):
    o = json.loads(json.dumps(s))
    o["name"] = name
    o["vgroups"] = {}
    o["bidi"] = []
    for a, la, b, lb in s["bidi"]:
        for v in exp_v(s, a):
            for w in exp_v(s, b):
                for l in exp_l(s, v, la):
                    for m in exp_l(s, w, lb):
                        if [v, l, w, m] not in o["bidi"]: o["bidi"].append([v, l, w, m])
    o["ltypes"] = []
    for a, la, ts in s["ltypes"]:
        want = []
        for t in ts:
            for w in exp_v(s, t):
                if w not in want: want.append(w)
        for v in exp_v(s, a):
            for l in exp_l(s, v, la): o["ltypes"].append([v, l, want])
    return o

def pairs(s):
    r = set()
    for v, l, w, m in writeout(s, "")["bidi"]:
        r.add((v, l, w, m))
        r.add((w, m, v, l))
    return r

def ok(s):
    """SchemaOK of spec/TTGraph.tla"""
    ps = pairs(s)
    kind = lambda v, l: s["variants"][v]["links"][l]["k"]
    if any(kind(v, l) == "vec" for v, l, w, m in ps): return False
    for v in s["order"]:
        for w in s["order"]:
            opp = {l: {m for (a, x, b, m) in ps if (a, x, b) == (v, l, w)} for l in s["variants"][v]["links"]}
            for a in opp.values():
                for b in opp.values():
                    if a != b and a & b: return False
    return True

# every name under which the macros know a link (readme: "types are matched by name in the macros")
IDX = ["ttgraph::NodeIndex", "NodeIndex"]
SETS = ([p + c for c in ("HashSet", "BTreeSet") for p in ("::std::collections::", "std::collections::", "collections::", "")]
        + [p + "OrderSet" for p in ("::ordermap::set::", "::ordermap::", "ordermap::set::", "ordermap::", "map::", "tgraph::ordermap::", "")]
        + [p + "IndexSet" for p in ("::indexmap::set::", "::indexmap::", "indexmap::set::", "indexmap::", "map::", "")])
VECS = ["std::vec::Vec", "vec::Vec", "Vec"]
TYS = {"dir": IDX, "vec": ["%s<%s>" % (c, i) for c in VECS for i in IDX], "set": ["%s<%s>" % (c, i) for c in SETS for i in IDX]}

NAMES = ["f%d", "left_%d", "a_long_name_%d", "x%d_y"]

def rand(seed, name):
    rng = random.Random(seed)
    while True:
        nv = rng.choice([1, 2, 2, 3, 3, 4, 4, 6])
        order = ["V%d" % i for i in range(nv)]
        lg = rng.sample(["ga", "gb", "gc", "g_d", "some_group"], rng.randint(2, 4))
        sty = rng.choice(NAMES)
        variants = {}
        for v in order:
            links = {}
            for i in range(rng.randint(1, 4)):
                k = rng.choice(["dir", "dir", "set", "set", "vec"])
                g = rng.sample(lg, rng.choice([0, 1, 1, 2, 2]) if k != "vec" else rng.choice([0, 1]))
                links[sty % i] = dict(k=k, ty=rng.choice(TYS[k]), groups=g)
                if len(g) > 1 and rng.random() < 0.5: links[sty % i]["split"] = 1
            have = {g for l in links.values() for g in l["groups"]}
            # a group that a declaration may look for in this variant has to be declared, even without a link
            variants[v] = dict(links=links, phantom=[g for g in lg if g not in have], rich=rng.randint(0, 1))
        vgroups = {}
        for i in range(rng.randint(1, 4)):
            vgroups["w%d" % i] = sorted(rng.sample(order, rng.randint(1, nv)))
        s = dict(name=name, order=order, variants=variants, vgroups=vgroups, bidi=[], ltypes=[])
        vn = order + list(vgroups) * 2
        def side():
            v = rng.choice(vn)
            l = rng.choice(lg) if v in vgroups or rng.random() < 0.5 else rng.choice(list(variants[v]["links"]))
            return v, l
        want = rng.randint(1, 4)
        for _ in range(60):
            if len(s["bidi"]) == want: break
            x, y = side(), side()
            # both sides in the same variants: as likely as any other shape
            if rng.random() < 0.3: y = (x[0], rng.choice(lg)) if x[0] in vgroups else (x[0], rng.choice(lg + list(variants[x[0]]["links"])))
            s["bidi"].append([*x, *y])
            if not ok(s) or not pairs(s): s["bidi"].pop()
        if not s["bidi"]: continue
        for _ in range(rng.randint(1, 4)):
            v, l = side()
            s["ltypes"].append([v, l, rng.sample(order + list(vgroups), rng.choice([1, 1, 2, 2, 3]) if nv > 1 else 1)])
        return s

def features(s):
    """the shapes of the declarations of a schema"""
    r = set()
    def var(x): return "g%d" % min(3, len(s["vgroups"][x])) if x in s["vgroups"] else "v"
    def link(x, l):
        ns = [len(exp_l(s, v, l)) for v in exp_v(s, x)]
        if all(l in s["variants"][v]["links"] for v in exp_v(s, x)): return "link"
        return "grp%d%s" % (min(2, max(ns)), "h" if min(ns) == 0 else "")
    for a, la, b, lb in s["bidi"]:
        A, B = set(exp_v(s, a)), set(exp_v(s, b))
        r.add(("vars", var(a), var(b), a == b, "same" if A == B else "meet" if A & B else "apart"))
        r.add(("links", link(a, la), link(b, lb), la == lb, a == b))
        for i, v in enumerate(exp_v(s, a)):
            for j, w in enumerate(exp_v(s, b)):
                for k, m in enumerate(exp_l(s, v, la)):
                    for n, o in enumerate(exp_l(s, w, lb)):
                        r.add(("pair", var(a)[0], var(b)[0], a == b, la == lb, v == w, (i > j) - (i < j)))
                        r.add(("member", min(k, 2), min(n, 2)))
        kinds = lambda x, l: {s["variants"][v]["links"][m]["k"] for v in exp_v(s, x) for m in exp_l(s, v, l)}
        r.add(("kinds", tuple(sorted(kinds(a, la))), tuple(sorted(kinds(b, lb)))))
    seen = {}
    for a, la, ts in s["ltypes"]:
        r.add(("type", var(a), link(a, la)))
        r.add(("targets",) + tuple(var(t)[0] for t in ts))
        for v in exp_v(s, a):
            for m in exp_l(s, v, la):
                if (v, m) in seen: r.add(("twice", seen[v, m] == la))
                seen[v, m] = la
                r.add(("typed", s["variants"][v]["links"][m]["k"]))
    for v, d in s["variants"].items():
        r.add(("nlinks", len(d["links"])))
        for i, f in enumerate(d["links"].values()):
            r.add(("groups", f["k"], len(f["groups"]), "split" in f))
            for j, g in enumerate(f["groups"]):
                if any(g in (x[1], x[3]) for x in s["bidi"]): r.add(("nth group bidi", j, "split" in f))
                if any(g == x[1] for x in s["ltypes"]): r.add(("nth group type", j, "split" in f))
    r.add(("n", len(s["order"]), len(s["bidi"])))
    return r

def cover(seed, n, names):
    """n schemas that have as many different shapes as can be had"""
    cand = [rand(seed * 1000 + i, "") for i in range(250)]
    fs = [features(s) for s in cand]
    got, r = set(), []
    for name in names[:n]:
        k = max(range(len(cand)), key=lambda i: sum(3 if x[0] == "pair" else 1 for x in fs[i] - got))
        got |= fs[k]
        r.append(dict(cand[k], name=name))
        cand.pop(k)
        fs.pop(k)
    return r, len(got), len(got.union(*fs))

def put(path, s): open(path, "w").write(json.dumps(s, indent=1) + "\n")

if __name__ == "__main__":
    if sys.argv[1] == "writeout":
        put(sys.argv[3], writeout(json.load(open(sys.argv[2])), sys.argv[4]))
    else:
        seed, out, name = sys.argv[2:5]
        s = rand(seed, name)
        put("%s/%s.json" % (out, name), s)
        put("%s/%so.json" % (out, name), writeout(s, name + "o"))
