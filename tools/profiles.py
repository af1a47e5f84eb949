"""What each property's check explores.

mc:     bounded exhaustive exploration of spec/MC.tla; (schema, bounds).  Every behaviour it prints is replayed.
trace:  recorded random histories judged by spec/TraceTT.tla; (schema, driver profile, number of histories).
Numbers are for the quick tier; "deep" holds the thorough tier's versions.
"""

def mc(schema, ops, seednodes=2, seedlinks=1, newids=0, txops=(2,), open=1, inslinks=1, seedvariants=(), checked=False, limit=0):
    return dict(schema=schema, checked=checked, limit=limit,
                bounds=dict(ops=list(ops), seednodes=seednodes, seedlinks=seedlinks, seedvariants=list(seedvariants),
                            newids=newids, txops=list(txops), open=open, inslinks=inslinks, emit=True))

def tr(schema, n, mode="strict", ids=True, build="dev", **prof):
    w = prof.pop("w", {})
    prof["w"] = w
    return dict(schema=schema, n=n, mode=mode, ids=ids, build=build, profile=prof)

W_MULTI = dict(newctx=1, clonectx=1, newgraph=3, merge=2, observe=3, giveup=1)
W_MOVE = dict(newctx=1, clonectx=1, newgraph=3, merge=2, switch=2, serde=2)

P = {}

P["C01"] = dict(
    title="commit order",
    mc=[mc("mini", ["remove", "mutate", "redir", "redirall", "insert"], seednodes=2, seedlinks=1, newids=1, txops=[2]),
        mc("mini", ["remove", "mutate", "update", "redir", "redirall", "data"], seednodes=1, seedlinks=1, txops=[3])],
    deep_mc=[mc("mini", ["remove", "mutate", "update", "redir", "redirall", "insert"], seednodes=2, seedlinks=2, newids=1, txops=[2]),
             mc("mini", ["remove", "mutate", "redir", "redirall"], seednodes=2, seedlinks=1, txops=[3]),
             mc("plain", ["remove", "mutate", "update", "redir", "redirall", "insert", "become"], seednodes=2, seedlinks=1, newids=1, txops=[2])],
    trace=[tr("mini", 250, ghost=0.02, w=dict(commit=8, mutate=14, update=14)),
           tr("plain", 200, ghost=0.02, becomes=0.2, w=dict(commit=8, mutate=14, update=14)),
           tr("mix", 200, ghost=0.02, w=dict(commit=8, mutate=14, update=14, newgraph=2)),
           tr("bidi", 150, w=dict(commit=8, mutate=14, update=14))],
    need=["Insert", "Mutate", "Update", "Redir", "RedirAll", "Remove", "Commit"])

P["C02"] = dict(
    title="isolation of transactions",
    mc=[mc("mini", ["insert", "remove", "mutate", "redir", "giveup"], seednodes=2, seedlinks=1, newids=1, txops=[1, 1], open=2),
        mc("pair", ["insert", "remove", "mutate", "giveup"], seednodes=1, seedlinks=0, newids=1, txops=[1, 1], open=2)],
    deep_mc=[mc("mini", ["insert", "remove", "mutate", "update", "redir", "redirall", "giveup"], seednodes=2, seedlinks=1, newids=1, txops=[2, 1], open=2),
             mc("pair", ["insert", "remove", "mutate", "redir", "giveup", "newgraph"], seednodes=2, seedlinks=1, newids=1, txops=[1, 1], open=2)],
    trace=[tr("mini", 200, txmax=4, gmax=3, w=dict(newtxn=12, giveup=3, observe=8, merge=2, newgraph=3, isempty=1)),
           tr("mix", 200, txmax=4, gmax=3, w=dict(newtxn=12, giveup=3, observe=8, merge=2, newgraph=3, isempty=1)),
           tr("pair", 200, txmax=5, gmax=2, cmax=2, w=dict(newtxn=12, giveup=3, observe=8, newctx=1, clonectx=2, newgraph=2)),
           tr("bidi", 150, txmax=4, gmax=2, w=dict(newtxn=12, giveup=3, observe=8))],
    need=["GiveUp", "Observe", "Commit", "NewTxn"])

P["C03"] = dict(
    title="indices",
    mc=[mc("mini", ["insert", "extend", "alloc", "allocu", "fillu", "giveup", "remove", "clonectx"], seednodes=1, seedlinks=0, newids=3, txops=[2, 1], open=2, inslinks=0)],
    deep_mc=[mc("mini", ["insert", "extend", "alloc", "allocu", "fillu", "giveup", "remove", "clonectx", "newgraph", "merge", "switch", "newctx"],
                seednodes=1, seedlinks=0, newids=3, txops=[2, 1], open=2, inslinks=0)],
    trace=[tr("mini", 200, mode="loose", txmax=4, gmax=3, cmax=2, w=dict(newctx=1, clonectx=2, insert=12, extend=6, alloc=8, allocu=6, giveup=4, switch=3, newgraph=3, merge=1, remove=6)),
           tr("pair", 200, mode="loose", txmax=4, gmax=3, cmax=3, w=dict(newctx=2, clonectx=2, insert=12, extend=6, alloc=8, allocu=6, giveup=4, switch=3, newgraph=3, merge=1, remove=6)),
           tr("mini", 40, mode="loose", threads=6, gmax=2, len=[10, 20], w=dict(extend=6, allocu=6, giveup=4, clonectx=1)),
           tr("mini", 12, mode="loose", threads=8, batch=1500)],
    need=["Insert", "Extend", "Alloc", "Switch", "Batch"])

P["C04"] = dict(
    title="allocate and fill back",
    mc=[mc("pair", ["alloc", "allocu", "fill", "fillu", "badfill", "unfilled", "remove"], seednodes=1, seedlinks=0, newids=2, txops=[4], inslinks=0),
        mc("pair", ["alloc", "allocu", "fill", "fillu", "insert"], seednodes=1, seedlinks=1, newids=1, txops=[3], inslinks=1)],
    deep_mc=[mc("pair", ["alloc", "allocu", "fill", "fillu", "badfill", "unfilled", "remove", "giveup", "insert"], seednodes=1, seedlinks=1, newids=2, txops=[4], inslinks=0),
             mc("pair", ["alloc", "allocu", "fill", "fillu", "badfill", "unfilled", "mutate"], seednodes=1, seedlinks=0, newids=2, txops=[3], inslinks=1)],
    trace=[tr("plain", 200, badfill=0.2, unfilled=0.25, txmax=2, w=dict(alloc=10, allocu=8, fill=16, insert=3, newtxn=8)),
           tr("pair", 200, badfill=0.2, unfilled=0.25, txmax=3, w=dict(alloc=10, allocu=8, fill=16, insert=3, newtxn=8, observe=3)),
           tr("pair", 200, build="rel", badfill=0.2, unfilled=0.25, txmax=2, w=dict(alloc=10, allocu=8, fill=16, insert=3, newtxn=8, observe=3)),
           tr("mini", 100, build="relnd", badfill=0.2, unfilled=0.25, txmax=2, w=dict(alloc=10, allocu=8, fill=16, insert=3, newtxn=8, observe=3))],
    need=["Alloc", "Fill", "FillU", "Commit"], stats=["commit_refused", "fill_panic"])

P["C05"] = dict(
    title="contexts do not mix",
    mc=[mc("mini", ["newctx", "clonectx", "newgraph", "insert", "foreign", "merge"], seednodes=1, seedlinks=0, newids=1, txops=[1, 1], open=1, inslinks=0)],
    deep_mc=[mc("mini", ["newctx", "clonectx", "newgraph", "insert", "remove", "foreign", "merge", "switch"], seednodes=1, seedlinks=1, newids=1, txops=[1, 1], open=2, inslinks=1)],
    trace=[tr("mini", 200, cmax=4, gmax=4, txmax=3, foreign=0.35, w=dict(newctx=4, clonectx=3, newgraph=6, merge=5, observe=4, commit=14)),
           tr("pair", 200, cmax=4, gmax=4, txmax=3, foreign=0.35, w=dict(newctx=4, clonectx=3, newgraph=6, merge=5, observe=4, commit=14, commitc=6)),
           tr("pair", 150, build="rel", cmax=4, gmax=4, txmax=3, foreign=0.35, w=dict(newctx=4, clonectx=3, newgraph=6, merge=5, observe=4, commit=14, switch=1)),
           tr("mini", 150, build="relnd", cmax=4, gmax=4, txmax=3, foreign=0.35, w=dict(newctx=4, clonectx=3, newgraph=6, merge=5, observe=4, commit=14, switch=1))],
    need=["NewCtx", "CloneCtx", "Commit", "Merge"], stats=["commit_refused", "merge_panic"])

P["C06"] = dict(
    title="removal",
    mc=[mc("mini", ["remove", "mutate"], seednodes=2, seedlinks=2, txops=[2]),
        mc("mini", ["remove"], seednodes=3, seedlinks=2, txops=[2]),
        mc("pair", ["remove", "mutate", "insert"], seednodes=2, seedlinks=1, newids=1, txops=[2])],
    deep_mc=[mc("mini", ["remove", "mutate", "redirall"], seednodes=3, seedlinks=2, txops=[2]),
             mc("mini", ["remove", "mutate", "insert", "ghosts"], seednodes=2, seedlinks=2, newids=1, txops=[2, 1]),
             mc("pair", ["remove", "mutate", "insert", "update"], seednodes=3, seedlinks=1, newids=1, txops=[2])],
    trace=[tr("mini", 250, ghost=0.03, maxnodes=10, seedn=8, w=dict(remove=14, commit=14)),
           tr("plain", 200, ghost=0.03, maxnodes=10, seedn=8, w=dict(remove=14, commit=14)),
           tr("bidi", 200, ghost=0.02, maxnodes=10, seedn=8, w=dict(remove=14, commit=14)),
           tr("mix", 150, maxnodes=12, seedn=10, probe=True, w=dict(remove=14, commit=14))],
    need=["Remove", "Commit"])

P["C07"] = dict(
    title="redirection",
    mc=[mc("mini", ["redir"], seednodes=3, seedlinks=1, txops=[3]),
        mc("mini", ["redir", "redirall", "mutate", "insert"], seednodes=2, seedlinks=1, newids=1, txops=[2]),
        mc("pair", ["redir", "redirall", "mutate"], seednodes=2, seedlinks=1, txops=[2])],
    deep_mc=[mc("mini", ["redir", "redirall"], seednodes=3, seedlinks=2, txops=[2]),
             mc("mini", ["redirall"], seednodes=3, seedlinks=2, txops=[3]),
             mc("mini", ["redir", "redirall", "mutate", "remove", "insert"], seednodes=2, seedlinks=1, newids=1, txops=[3]),
             mc("pair", ["redir", "redirall", "insert"], seednodes=3, seedlinks=1, newids=1, txops=[2])],
    trace=[tr("mini", 250, ghost=0.02, maxnodes=10, seedn=8, w=dict(redir=14, redirall=14, commit=8, remove=3)),
           tr("plain", 200, ghost=0.02, maxnodes=10, seedn=8, w=dict(redir=14, redirall=14, commit=8, remove=3)),
           tr("bidi", 150, maxnodes=10, seedn=8, w=dict(redir=10, redirall=10, commit=10, remove=3)),
           tr("mix", 150, maxnodes=12, seedn=10, w=dict(redir=10, redirall=10, commit=10, remove=3))],
    need=["Redir", "RedirAll", "Commit"])

P["C08"] = dict(
    title="link tracking over histories",
    mc=[mc("mini", ["mutate", "remove", "redirall", "ghosts"], seednodes=2, seedlinks=1, txops=[1, 1]),
        mc("pair", ["mutate", "remove", "redir", "ghosts"], seednodes=2, seedlinks=1, txops=[1, 1]),
        mc("mini", ["merge", "newgraph", "insert", "remove"], seednodes=1, seedlinks=1, newids=2, txops=[1, 1, 1])],
    deep_mc=[mc("mini", ["mutate", "remove", "redirall", "redir", "ghosts"], seednodes=2, seedlinks=1, txops=[1, 1, 1]),
             mc("pair", ["mutate", "update", "remove", "redir", "redirall", "ghosts"], seednodes=2, seedlinks=1, txops=[2, 1]),
             mc("mini", ["switch", "newctx", "serde", "mutate", "remove", "redirall"], seednodes=2, seedlinks=1, txops=[1, 1])],
    trace=[tr("mini", 200, probe=True, dangling=0.2, becomes=0.3, gmax=3, cmax=2, w=dict(W_MOVE)),
           tr("plain", 150, probe=True, dangling=0.2, becomes=0.4, gmax=3, cmax=2, w=dict(W_MOVE)),
           tr("bidi", 150, probe=True, dangling=0.15, becomes=0.3, gmax=3, cmax=2, w=dict(W_MOVE)),
           tr("mix", 150, probe=True, dangling=0.15, becomes=0.3, gmax=3, cmax=2, w=dict(W_MOVE))],
    need=["Remove", "Redir", "RedirAll", "Commit", "Merge", "Switch", "Serde"])

P["C09"] = dict(
    title="bidirectional links",
    mc=[mc("pair", ["mutate", "insert", "remove", "redir"], seednodes=2, seedlinks=1, newids=1, txops=[2]),
        mc("pair", ["mutate", "redirall", "become"], seednodes=2, seedlinks=2, txops=[1]),
        mc("bidi", ["mutate", "remove", "redirall"], seednodes=2, seedlinks=1, txops=[1])],
    deep_mc=[mc("pair", ["mutate", "update", "insert", "remove", "redir", "redirall", "become"], seednodes=2, seedlinks=1, newids=1, txops=[2]),
             mc("pair", ["mutate", "remove", "redirall", "redir"], seednodes=3, seedlinks=2, txops=[1]),
             mc("bidi", ["mutate", "remove"], seednodes=2, seedlinks=1, txops=[2])],
    trace=[tr("bidi", 250, becomes=0.25, seedn=6, w=dict(redir=6, redirall=6)),
           tr("pair", 200, becomes=0.25, seedn=6, gmax=2, w=dict(merge=2, newgraph=3)),
           tr("mix", 200, becomes=0.25, seedn=6, gmax=2, w=dict(merge=2, newgraph=3)),
           tr("lr", 150, becomes=0.25, seedn=6, careful=0.95)],
    need=["Mutate", "Commit", "Redir"])

P["C10"] = dict(
    title="bidirectional conflicts",
    mc=[mc("pair", ["mutate", "insert", "remove"], seednodes=2, seedlinks=1, newids=1, txops=[2]),
        mc("xy", ["mutate", "remove"], seednodes=2, seedlinks=1, txops=[2], seedvariants=["X", "Y"]),
        mc("xy", ["mutate", "redir"], seednodes=3, seedlinks=1, txops=[1])],
    deep_mc=[mc("xy", ["mutate", "update", "remove", "insert"], seednodes=2, seedlinks=1, newids=1, txops=[2], seedvariants=["X", "Y"]),
             mc("pair", ["mutate", "redir", "redirall", "remove"], seednodes=3, seedlinks=1, txops=[2]),
             mc("lr", ["mutate", "remove"], seednodes=2, seedlinks=1, txops=[2])],
    trace=[tr("bidi", 200, careful=0.6, seedn=6, becomes=0.2),
           tr("xy", 250, careful=0.6, seedn=6, becomes=0.2, typed=0.7),
           tr("lr", 200, careful=0.6, seedn=6, becomes=0.2),
           tr("pair", 150, careful=0.6, seedn=6, becomes=0.2)],
    need=["Commit"], stats=["commit_panic", "commit_ok"])

P["C11"] = dict(
    title="link types",
    mc=[mc("types", ["mutate", "redir"], seednodes=2, seedlinks=1, txops=[1]),
        mc("xy", ["mutate", "insert", "redirall"], seednodes=2, seedlinks=0, newids=1, txops=[1]),
        mc("types", ["insert", "become"], seednodes=2, seedlinks=0, newids=1, txops=[1])],
    deep_mc=[mc("types", ["mutate", "insert", "redir", "redirall", "become", "remove", "ghosts"], seednodes=2, seedlinks=1, newids=1, txops=[1]),
             mc("grp", ["mutate", "insert", "redir"], seednodes=2, seedlinks=1, newids=1, txops=[1]),
             mc("types", ["mutate"], seednodes=2, seedlinks=0, txops=[2])],
    trace=[tr("types", 300, careful=0.8, seedn=6, becomes=0.2, gmax=2, cmax=2, w=dict(switch=1, newctx=1, redir=6, redirall=6)),
           tr("xy", 150, careful=0.8, seedn=6, becomes=0.2, w=dict(commitc=2)),
           tr("lr", 150, careful=0.8, seedn=6, becomes=0.2),
           tr("grp", 200, careful=0.8, seedn=6, becomes=0.2, gmax=2, w=dict(merge=2, newgraph=3))],
    need=["Commit", "Redir", "Switch"], stats=["commit_panic", "commit_ok"])

P["C12"] = dict(
    title="groups are their written-out pairs",
    mc=[mc("grp", ["mutate", "insert"], seednodes=2, seedlinks=0, newids=1, txops=[1]),
        mc("lr", ["mutate"], seednodes=2, seedlinks=1, txops=[1]),
        mc("types", ["mutate"], seednodes=2, seedlinks=0, txops=[1]),
        mc("xy", ["mutate"], seednodes=2, seedlinks=1, txops=[1]),
        mc("ring", ["mutate", "insert"], seednodes=2, seedlinks=0, newids=1, txops=[1])],
    deep_mc=[mc("grp", ["mutate", "insert", "redir", "remove"], seednodes=2, seedlinks=1, newids=1, txops=[1]),
             mc("ring", ["mutate", "insert", "redir", "remove"], seednodes=2, seedlinks=1, newids=1, txops=[1]),
             mc("lr", ["mutate", "remove"], seednodes=3, seedlinks=1, txops=[1])],
    trace=[tr("grp", 200, careful=0.8, seedn=6, becomes=0.2),
           tr("grpo", 200, careful=0.8, seedn=6, becomes=0.2),
           tr("lr", 150, careful=0.85, seedn=6, becomes=0.2),
           tr("ring", 200, careful=0.8, seedn=6, becomes=0.2),
           tr("ringo", 200, careful=0.8, seedn=6, becomes=0.2),
           tr("types", 150, careful=0.8, seedn=6, becomes=0.2)],
    agree=[("grp", "grpo"), ("ring", "ringo")],
    random_schemas=(6, 30), random_more=(6, 60), random_twins=True,
    random_mc=mc("", ["mutate"], seednodes=2, seedlinks=0, txops=[1]),
    random_leg=tr("", 40, careful=0.8, seedn=6, becomes=0.2),
    need=["Commit"], stats=["commit_panic", "commit_ok"])

W_VIEW = dict(views=10, consume=1, newgraph=3, merge=2, switch=2, serde=2, newctx=1)
P["C13"] = dict(
    title="views agree",
    mc=[mc("pair", ["insert", "mutate", "update", "become", "remove"], seednodes=2, seedlinks=0, newids=1, txops=[1], inslinks=0, checked="views")],
    deep_mc=[mc("pair", ["insert", "mutate", "update", "become", "remove"], seednodes=2, seedlinks=0, newids=1, txops=[2], inslinks=0, checked="views")],
    trace=[tr("plain", 200, mode="loose", ids=False, becomes=0.5, gmax=3, cmax=2, w=W_VIEW),
           tr("mix", 150, mode="loose", ids=False, becomes=0.5, gmax=3, cmax=2, w=W_VIEW),
           tr("types", 150, mode="loose", ids=False, becomes=0.4, gmax=3, cmax=2, w=W_VIEW),
           tr("lr", 100, mode="loose", ids=False, becomes=0.5, gmax=3, cmax=2, w=W_VIEW)],
    need=["Views", "Consume", "Merge", "Switch", "Serde"])

P["C14"] = dict(
    title="reflection",
    mc=[mc("plain", ["insert"], seednodes=2, seedlinks=1, newids=1, txops=[1], inslinks=2, checked="reflect", limit=2500)],
    deep_mc=[mc("types", ["insert"], seednodes=2, seedlinks=1, newids=1, txops=[1], inslinks=2, checked="reflect", limit=40000),
             mc("plain", ["insert", "mutate"], seednodes=2, seedlinks=1, newids=1, txops=[1], inslinks=2, checked="reflect", limit=60000)],
    trace=[tr("plain", 120, mode="loose", ids=False, dangling=0.15, links=0.75, w=dict(reflect=10)),
           tr("mix", 120, mode="loose", ids=False, dangling=0.15, links=0.75, w=dict(reflect=10)),
           tr("types", 120, mode="loose", ids=False, links=0.75, w=dict(reflect=10)),
           tr("grp", 80, mode="loose", ids=False, links=0.75, w=dict(reflect=10)),
           tr("ring", 80, mode="loose", ids=False, links=0.75, w=dict(reflect=10))],
    need=["Reflect"])

P["C15"] = dict(
    title="serialization",
    mc=[mc("pair", ["serde", "insert", "remove", "mutate"], seednodes=2, seedlinks=1, newids=1, txops=[1, 1]),
        mc("mini", ["serde", "insert", "remove", "redirall"], seednodes=2, seedlinks=1, newids=1, txops=[1])],
    deep_mc=[mc("pair", ["serde", "insert", "remove", "mutate", "redir"], seednodes=2, seedlinks=1, newids=1, txops=[1, 1]),
             mc("mini", ["serde", "insert", "remove", "mutate", "redirall", "ghosts"], seednodes=2, seedlinks=1, newids=1, txops=[1, 1])],
    trace=[tr("mini", 200, probe=True, dangling=0.1, gmax=3, w=dict(serde=8, newgraph=3, merge=1, commit=14)),
           tr("plain", 200, probe=True, dangling=0.1, gmax=3, w=dict(serde=8, newgraph=3, merge=1, commit=14, views=3)),
           tr("bidi", 150, gmax=3, w=dict(serde=8, newgraph=3, merge=1, commit=14, switch=1, newctx=1)),
           tr("mix", 150, dangling=0.05, gmax=3, w=dict(serde=8, newgraph=3, merge=1, commit=14))],
    need=["Serde", "Commit"], stats=["serde_ok"])

P["C16"] = dict(
    title="switch of context",
    mc=[mc("mini", ["newctx", "switch", "remove", "redirall"], seednodes=2, seedlinks=2, txops=[1]),
        mc("pair", ["newctx", "switch", "mutate", "remove"], seednodes=2, seedlinks=1, txops=[1])],
    deep_mc=[mc("mini", ["newctx", "switch", "remove", "mutate", "redirall"], seednodes=2, seedlinks=2, txops=[1]),
             mc("pair", ["newctx", "switch", "mutate", "remove", "insert"], seednodes=2, seedlinks=2, newids=1, txops=[1]),
             mc("mini", ["newctx", "switch", "remove", "mutate", "ghosts"], seednodes=2, seedlinks=1, txops=[1, 1])],
    trace=[tr("mini", 250, probe=True, dangling=0.15, gmax=3, cmax=3, w=dict(switch=8, newctx=2, clonectx=1, newgraph=3, merge=1)),
           tr("plain", 200, probe=True, dangling=0.15, gmax=3, cmax=3, w=dict(switch=8, newctx=2, clonectx=1, newgraph=3, merge=1)),
           tr("bidi", 150, gmax=3, cmax=3, w=dict(switch=8, newctx=2, newgraph=3, merge=1)),
           tr("types", 150, gmax=3, cmax=3, w=dict(switch=8, newctx=2, newgraph=3, merge=1))],
    need=["Switch", "Commit"], stats=["switch_ok"])

P["C17"] = dict(
    title="merge",
    mc=[mc("mini", ["newgraph", "merge", "insert", "mutate"], seednodes=1, seedlinks=1, newids=1, txops=[1, 2]),
        mc("pair", ["newgraph", "merge", "insert", "remove"], seednodes=1, seedlinks=1, newids=1, txops=[1, 2])],
    deep_mc=[mc("mini", ["newgraph", "merge", "insert", "remove", "mutate", "redirall"], seednodes=1, seedlinks=1, newids=2, txops=[1, 2]),
             mc("pair", ["newgraph", "merge", "insert", "remove", "mutate", "giveup", "redir"], seednodes=2, seedlinks=1, newids=1, txops=[1, 2])],
    trace=[tr("mini", 200, gmax=4, txmax=2, dangling=0.1, w=dict(newgraph=8, merge=8, commit=14)),
           tr("bidi", 200, gmax=4, txmax=2, dangling=0.1, w=dict(newgraph=8, merge=8, commit=14)),
           tr("mix", 150, gmax=4, txmax=2, dangling=0.1, w=dict(newgraph=8, merge=8, commit=14)),
           tr("mix", 25, threads=5, gmax=2, len=[8, 16], w=dict(newgraph=4, merge=2)),
           tr("bidi", 25, threads=4, gmax=2, len=[8, 16], w=dict(newgraph=4, merge=2))],
    need=["Merge", "Commit"], stats=["merge_ok"])

P["C18"] = dict(
    title="checked commits",
    mc=[mc("pair", ["insert", "mutate", "remove", "redir"], seednodes=2, seedlinks=1, newids=1, txops=[1], checked="checked"),
        mc("mini", ["mutate", "update", "redirall", "remove"], seednodes=2, seedlinks=1, txops=[2], checked="checked", limit=2500)],
    deep_mc=[mc("pair", ["insert", "mutate", "update", "remove", "redir", "redirall", "become"], seednodes=2, seedlinks=1, newids=1, txops=[2], checked="checked", limit=60000),
             mc("mini", ["mutate", "update", "redirall", "redir", "remove", "insert"], seednodes=2, seedlinks=1, newids=1, txops=[2], checked="checked", limit=60000)],
    trace=[tr("mini", 150, fail=0.4, dangling=0.1, w=dict(commitc=16, commit=1)),
           tr("bidi", 200, fail=0.4, becomes=0.2, w=dict(commitc=16, commit=1, redir=6, redirall=6)),
           tr("mix", 150, fail=0.4, becomes=0.2, gmax=2, w=dict(commitc=16, commit=1, newgraph=3, merge=2)),
           tr("types", 150, fail=0.4, becomes=0.2, w=dict(commitc=16, commit=1))],
    need=["CommitC"], stats=["commit_panic", "commit_ok"])

P["C19"] = dict(
    title="build configurations",
    mc=[mc("pair", ["insert", "mutate", "remove", "redir"], seednodes=2, seedlinks=1, newids=1, txops=[1]),
        mc("xy", ["mutate", "remove"], seednodes=2, seedlinks=1, txops=[1])],
    deep_mc=[mc("pair", ["insert", "mutate", "update", "remove", "redir", "redirall"], seednodes=2, seedlinks=1, newids=1, txops=[2])],
    builds=["dev", "devnd", "rel", "relnd"],
    trace=[tr("bidi", 150, careful=0.8, becomes=0.2, gmax=2, cmax=2, foreign=0.1, unfilled=0.1, badfill=0.05, w=dict(newctx=1, newgraph=3, merge=2, switch=2, observe=2, views=1)),
           tr("types", 150, careful=0.85, becomes=0.2, gmax=2, cmax=2, foreign=0.1, unfilled=0.1, w=dict(newctx=1, newgraph=3, merge=2, switch=2, observe=2, integrity=3)),
           tr("xy", 100, careful=0.85, becomes=0.2, gmax=2, w=dict(newgraph=3, serde=2, observe=2)),
           tr("mini", 100, dangling=0.1, gmax=2, w=dict(newgraph=3, serde=2, observe=2, integrity=3, views=2))],
    need=["Commit", "Integrity"], stats=["commit_refused"])

P["C20"] = dict(
    title="own nodes",
    mc=[mc("mini", ["insert", "mutate", "update", "remove", "isempty"], seednodes=1, seedlinks=0, newids=2, txops=[3], inslinks=0),
        mc("pair", ["insert", "extend", "mutate", "become", "remove", "isempty"], seednodes=1, seedlinks=0, newids=2, txops=[2]),
        mc("pair", ["alloc", "fill", "mutate", "remove", "isempty"], seednodes=1, seedlinks=0, newids=1, txops=[4], inslinks=0)],
    deep_mc=[mc("mini", ["insert", "mutate", "update", "remove", "redirall", "redir", "isempty", "data"], seednodes=1, seedlinks=0, newids=2, txops=[3], inslinks=1),
             mc("pair", ["alloc", "allocu", "fill", "fillu", "mutate", "update", "remove", "isempty"], seednodes=1, seedlinks=0, newids=1, txops=[4], inslinks=1)],
    trace=[tr("mini", 200, seedn=2, wrongwant=0.03, gmax=2, w=dict(insert=12, extend=5, mutate=16, update=12, remove=10, isempty=12, giveup=1, merge=2, newgraph=2)),
           tr("plain", 200, seedn=2, wrongwant=0.03, becomes=0.3, w=dict(insert=12, extend=5, mutate=16, update=12, remove=10, isempty=12, giveup=1)),
           tr("mix", 150, seedn=2, gmax=2, becomes=0.3, w=dict(insert=12, extend=5, mutate=16, update=12, remove=10, isempty=12, merge=2, newgraph=2)),
           tr("pair", 150, seedn=2, becomes=0.3, wrongwant=0.03, w=dict(insert=12, extend=5, mutate=16, update=12, remove=10, isempty=12))],
    need=["IsEmpty", "Extend", "Mutate", "Update", "Remove"])

# ---------------------------------------------------------------------------------------------
# Long transactions on larger graphs: sizes at which other algorithms, orders and rehashings come into play
def big(schema, n=10, mode="strict", ids=True, **kw):
    w = dict(commit=1, mutate=26, update=16, insert=10, extend=3, alloc=3, remove=4, redir=3, redirall=3)
    w.update(kw.pop("w", {}))
    p = dict(len=[120, 200], maxnodes=45, seedn=36, dangling=0.01, careful=0.97, becomes=0.1)
    p.update(kw)
    return tr(schema, n, mode=mode, ids=ids, w=w, **p)

P["C01"]["trace"] += [big("mini", 12), big("plain", 10), big("bidi", 8)]
P["C02"]["trace"] += [big("mix", 8, txmax=4, gmax=2, w=dict(commit=3, newtxn=10, giveup=1, observe=2, newgraph=2))]
P["C03"]["trace"] += [big("mini", 10, mode="loose", w=dict(insert=20, extend=12, alloc=10, allocu=8, giveup=1, commit=3))]
P["C04"]["trace"] += [big("pair", 10, w=dict(alloc=30, allocu=20, fill=30, mutate=6, update=4), unfilled=0.2)]
P["C06"]["trace"] += [big("plain", 10, w=dict(remove=16, commit=3)), big("bidi", 8, w=dict(remove=16, commit=3))]
P["C07"]["trace"] += [big("plain", 10, w=dict(redir=16, redirall=16, commit=3)), big("mini", 10, w=dict(redir=16, redirall=16, commit=3))]
P["C08"]["trace"] += [big("plain", 6, probe=True, w=dict(commit=6)), big("mix", 5, probe=True, w=dict(commit=6))]
P["C09"]["trace"] += [big("bidi", 10, w=dict(commit=3)), big("mix", 8, w=dict(commit=3))]
P["C10"]["trace"] += [big("pair", 10, w=dict(commit=2)), big("xy", 10, w=dict(commit=2))]
P["C11"]["trace"] += [big("types", 10, careful=0.99, w=dict(commit=4))]
P["C12"]["trace"] += [big("types", 6, careful=0.99, w=dict(commit=3))]
P["C13"]["trace"] += [big("plain", 10, mode="loose", ids=False, becomes=0.4, w=dict(views=5, commit=5, remove=8, consume=1)),
                      big("mix", 8, mode="loose", ids=False, becomes=0.4, gmax=2, w=dict(views=5, commit=5, remove=8, merge=2, newgraph=2))]
P["C14"]["trace"] += [big("plain", 5, mode="loose", ids=False, links=0.9, w=dict(reflect=3, commit=5))]
P["C15"]["trace"] += [big("plain", 8, w=dict(serde=3, commit=5)), big("bidi", 6, w=dict(serde=3, commit=5))]
P["C16"]["trace"] += [big("plain", 8, cmax=3, gmax=2, w=dict(switch=3, newctx=1, commit=5)), big("bidi", 6, cmax=3, gmax=2, w=dict(switch=3, newctx=1, commit=5))]
P["C17"]["trace"] += [big("mix", 8, gmax=3, maxnodes=60, w=dict(merge=4, newgraph=5, commit=4)), big("bidi", 6, gmax=3, maxnodes=60, w=dict(merge=4, newgraph=5, commit=4))]
P["C18"]["trace"] += [big("bidi", 8, fail=0.2, w=dict(commit=0, commitc=4)), big("mini", 8, fail=0.2, w=dict(commit=0, commitc=4))]
P["C19"]["trace"] += [big("bidi", 4, w=dict(commit=3))]
P["C20"]["trace"] += [big("plain", 8, seedn=2, w=dict(insert=16, extend=6, isempty=4)), big("mini", 8, seedn=2, w=dict(insert=16, extend=6, isempty=4))]

# The same profiles in the other builds: a property is not about one build configuration
def others(pid, i, n, builds=("rel", "relnd")):
    for b in builds:
        t = P[pid]["trace"][i]
        P[pid]["trace"].append(dict(t, n=n, build=b))
others("C01", 1, 80); others("C02", 1, 80); others("C03", 1, 80)
others("C06", 1, 80); others("C07", 1, 80); others("C08", 1, 60)
others("C09", 0, 80); others("C10", 0, 80); others("C10", 1, 80)
others("C13", 0, 50); others("C14", 0, 25); others("C15", 1, 60); others("C16", 1, 60)
others("C17", 1, 60); others("C18", 1, 60, ("rel",)); others("C20", 1, 80)
others("C11", 0, 80, ("rel",)); others("C12", 2, 60, ("rel",))

# Unusual shapes: fields with dozens of links, graphs whose links meet in few nodes, chains of redirections, hundreds of
# nodes, thousands of operations on one graph
def wide(schema, n=12, **kw): return tr(schema, n, **dict(dict(wide=40, maxnodes=50, seedn=30, len=[30, 60], dangling=0.02, careful=0.97), **kw))
def huge(schema, n=1, **kw): return tr(schema, n, **dict(dict(maxnodes=330, seedn=300, len=[60, 90], dangling=0.01, careful=0.99), **kw))
def long(schema, n=2, **kw): return tr(schema, n, **dict(dict(maxnodes=12, seedn=6, len=[900, 1200], careful=0.99), **kw))
CHAIN = dict(chain=0.4, maxnodes=30, seedn=24, len=[40, 80])
P["C01"]["trace"] += [wide("mini"), tr("mini", 20, **CHAIN), huge("mini"), long("mini")]
P["C02"]["trace"] += [long("mini", txmax=3, gmax=2, w=dict(giveup=3, newgraph=1))]
P["C03"]["trace"] += [tr("mini", 1, mode="loose", threads=8, batch=10000), long("mini", mode="loose", w=dict(giveup=2, extend=6, allocu=4))]
P["C06"]["trace"] += [wide("plain", w=dict(remove=12)), tr("plain", 40, hub=0.8, maxnodes=14, seedn=12, w=dict(remove=12, commit=14)), huge("mini", w=dict(remove=20)), long("mini")]
P["C07"]["trace"] += [tr("mini", 40, **CHAIN), tr("plain", 40, w=dict(redirall=14), **CHAIN), tr("bidi", 30, **CHAIN), wide("plain", w=dict(redir=8, redirall=8)),
                      tr("plain", 40, hub=0.8, maxnodes=14, seedn=12, w=dict(redir=8, redirall=8, commit=14)), huge("mini", w=dict(redir=20, redirall=20))]
P["C08"]["trace"] += [wide("plain", n=6, probe=True), long("plain", n=1, probe=True, dangling=0.1), long("bidi", n=1, probe=True, dangling=0.1),
                      tr("mini", 40, probe=True, hub=0.8, maxnodes=14, seedn=12)]
P["C09"]["trace"] += [wide("bidi"), tr("bidi", 60, hub=0.8, maxnodes=14, seedn=12), long("bidi", n=1)]
P["C10"]["trace"] += [tr("pair", 60, hub=0.6, maxnodes=14, seedn=12, careful=0.6), wide("bidi", careful=0.6, len=[10, 20])]
P["C11"]["trace"] += [wide("types", careful=0.97)]
P["C13"]["trace"] += [huge("plain", mode="loose", ids=False, becomes=0.5, w=dict(views=5)), long("plain", n=1, mode="loose", ids=False, becomes=0.4, w=dict(views=6))]
P["C14"]["trace"] += [wide("plain", n=5, mode="loose", ids=False, maxnodes=14, seedn=10, w=dict(reflect=8))]
P["C15"]["trace"] += [wide("plain", n=8, w=dict(serde=8)), huge("mini", w=dict(serde=10)), huge("bidi", w=dict(serde=10))]
P["C16"]["trace"] += [wide("plain", n=8, cmax=3, gmax=2, w=dict(switch=8, newctx=2)), huge("mini", cmax=2, gmax=2, w=dict(switch=10, newctx=2))]
P["C17"]["trace"] += [wide("mix", n=8, gmax=3, w=dict(newgraph=6, merge=6)), huge("mini", gmax=2, w=dict(merge=6, newgraph=6))]
P["C18"]["trace"] += [wide("bidi", n=4, wide=14, maxnodes=22, seedn=18, len=[20, 40], w=dict(commitc=12, commit=0)), tr("mini", 20, w=dict(commitc=12, commit=0), **CHAIN)]

# Declarations nobody chose by hand
def rnd(pid, n, leg, more=(0, 0), mc=None):
    P[pid].update(random_schemas=n, random_leg=leg, random_more=more)
    if mc: P[pid]["random_mc"] = mc
rnd("C08", (2, 12), tr("", 50, probe=True, dangling=0.1, becomes=0.3, gmax=2, cmax=2, careful=0.97, w=dict(W_MOVE)))
rnd("C09", (3, 20), tr("", 60, becomes=0.25, seedn=6, careful=0.95, gmax=2, w=dict(merge=2, newgraph=3)),
    more=(4, 30), mc=mc("", ["mutate", "remove", "redir"], seednodes=2, seedlinks=1, txops=[1]))
rnd("C10", (3, 20), tr("", 60, becomes=0.2, seedn=6, careful=0.6, typed=0.8),
    more=(4, 30), mc=mc("", ["mutate"], seednodes=2, seedlinks=1, txops=[1]))
rnd("C11", (3, 20), tr("", 60, becomes=0.2, seedn=6, careful=0.85, gmax=2, cmax=2, w=dict(switch=1, newctx=1, redir=6, redirall=6)),
    more=(4, 30), mc=mc("", ["mutate", "insert"], seednodes=2, seedlinks=0, newids=1, txops=[1]))
rnd("C13", (2, 12), tr("", 50, mode="loose", ids=False, becomes=0.4, gmax=3, cmax=2, careful=0.97, w=W_VIEW))
rnd("C14", (3, 20), tr("", 30, mode="loose", ids=False, links=0.75, careful=0.97, w=dict(reflect=10)))
rnd("C15", (2, 12), tr("", 50, dangling=0.05, gmax=3, careful=0.97, w=dict(serde=8, newgraph=3, merge=1, commit=14)))
rnd("C18", (2, 12), tr("", 40, fail=0.4, becomes=0.2, careful=0.97, w=dict(commitc=16, commit=1)))

# Every name of a link type
P["C06"]["trace"] += [tr("spell", 30, maxnodes=10, seedn=8, w=dict(remove=14, commit=14))]
P["C07"]["trace"] += [tr("spell", 30, maxnodes=10, seedn=8, w=dict(redir=14, redirall=14, commit=8))]
P["C08"]["trace"] += [tr("spell", 25, probe=True, dangling=0.1, becomes=0.3, gmax=3, cmax=2, w=dict(W_MOVE))]
P["C14"]["trace"] += [tr("spell", 12, mode="loose", ids=False, links=0.75, w=dict(reflect=10))]

# Declarations, enumerated
ALL = ["bidi", "bidigroups", "bidi2", "types", "types2", "group", "forms", "twin"]
P["C12"]["decl"] = dict(sites=ALL, tables=True, valid=(300, 6000), invalid=(0, 0))
P["C21"] = dict(title="declarations name what exists", schemas=["mini"],
                decl=dict(sites=ALL, tables=False, valid=(300, 6000), invalid=(1200, 6000)))
