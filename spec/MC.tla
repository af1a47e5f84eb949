--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Bounded exhaustive exploration of TTGraph.  Every reachable call up to  *)
(* the bounds is taken; the properties below are evaluated on every step;  *)
(* and every call whose outcome can be observed is printed together with   *)
(* the calls leading to it and the outcome that the specification expects. *)
(* The harness executes these behaviours on the real code.                 *)
(*                                                                         *)
(* Histories start from every graph with at most SeedLinks links on        *)
(* SeedNodes nodes, so that a commit is explored from all of these graphs. *)
(* Indices are drawn from one counter, which makes every index a name.     *)
(***************************************************************************)
EXTENDS TTGraph

LOCAL SX == INSTANCE SequencesExt
SetToSeq(S) == SX!SetToSeq(S)

\* the bounds, see tools/profiles.py
P == JsonDeserialize(IOEnv.TT_MC)
Ops == Range(P.ops)          \* names of the calls that may be made
SeedNodes == P.seednodes
SeedLinks == P.seedlinks
SeedVariants == Range(P.seedvariants)  \* variants of the seed nodes ({} = all)
NewIds == P.newids           \* how many indices transactions may draw
TxOps == P.txops             \* building calls: of the first transaction, of the second, ...
Txns == Len(TxOps)           \* how many transactions in all
Open == P.open               \* how many of them open at the same time
InsLinks == P.inslinks       \* links of an inserted node
Emit == P.emit               \* print the behaviours

VARIABLES hist, next, cnt, opened, aux
mcvars == <<ctxs, dists, graphs, txns, hist, next, cnt, opened, aux>>
View == <<ctxs, dists, graphs, txns, next, cnt, opened, aux>>

SeedVs == IF SeedVariants = {} THEN Variants ELSE SeedVariants

-----------------------------------------------------------------------------
(* Writing calls the way the harness reads them *)

Blank(v) == [l \in Links(v) |-> {}]
\* the values of a field as a sequence of names
Ys(v, l, ps) == IF Kind(v, l) = "vec"
                THEN [i \in 1..Cardinality(ps) |-> (CHOOSE p \in ps : p[1] = i)[2]]
                ELSE SetToSeq({p[2] : p \in ps})
JNode(n) == [v |-> n.v, uid |-> n.d[1], pay |-> n.d[2], f |-> [l \in Links(n.v) |-> Ys(n.v, l, n.f[l])]]
JEdit(v, e) == CASE e.op = "put" -> [op |-> "put", l |-> e.l, ys |-> Ys(v, e.l, Range(e.ps))]
                 [] e.op = "become" -> [op |-> "become", n |-> JNode(e.n)]
                 [] OTHER -> e
JGraphs(gs) == SetToSeq({<<g, SetToSeq({<<x, gs[g].nodes[x]>> : x \in DOMAIN gs[g].nodes})>> : g \in DOMAIN gs})

Log(op, res) == hist' = Append(hist, [op |-> op, res |-> res])
\* a call with an observable outcome: log it, and print the behaviour so far with all graphs afterwards
Show(op, res) ==
  /\ hist' = Append(hist, [op |-> op, res |-> res])
  /\ IF Emit THEN PrintT(ToJson([steps |-> Append(hist, [op |-> op, res |-> res, graphs |-> JGraphs(graphs')])])) ELSE TRUE
ShowVal(op, val) ==
  /\ hist' = Append(hist, [op |-> op, res |-> "ok"])
  /\ IF Emit THEN PrintT(ToJson([steps |-> Append(hist, [op |-> op, res |-> "ok", val |-> val])])) ELSE TRUE

-----------------------------------------------------------------------------
(* The seed graphs *)

Seeds == 1..SeedNodes
Universe(vs) == UNION {UNION {{<<x, l, y>> : y \in Seeds} : l \in Links(vs[x])} : x \in Seeds}
SmallSubsets(S, k) == {{}} \cup (IF k >= 1 THEN {{a} : a \in S} ELSE {})
                           \cup (IF k >= 2 THEN {{a, b} : a \in S, b \in S} ELSE {})
                           \cup (IF k >= 3 THEN {{a, b, c} : a \in S, b \in S, c \in S} ELSE {})
\* links as a set of <<x, l, y>>; a vector gets its slots in the order of the targets
FieldOf(vs, ls, x, l) ==
  LET ys == {t[3] : t \in {u \in ls : u[1] = x /\ u[2] = l}} IN
  IF Kind(vs[x], l) = "vec" THEN LET s == SetToSeq(ys) IN {<<i, s[i]>> : i \in 1..Len(s)}
  ELSE {<<0, y>> : y \in ys}
Legal(vs, ls) == \A x \in Seeds : \A l \in Links(vs[x]) :
   Kind(vs[x], l) = "dir" => Cardinality({t \in ls : t[1] = x /\ t[2] = l}) <= 1
SeedGraph(vs, ls) == [x \in Seeds |-> [v |-> vs[x], d |-> <<x, 0>>, f |-> [l \in Links(vs[x]) |-> FieldOf(vs, ls, x, l)]]]
SeedHist(G) ==
  <<[op |-> [o |-> "NewCtx", c |-> 1, how |-> 0], res |-> "ok"],
    [op |-> [o |-> "NewGraph", g |-> 1, c |-> 1], res |-> "ok"],
    [op |-> [o |-> "NewTxn", t |-> 0, c |-> 1], res |-> "ok"]>>
  \o [x \in Seeds |-> [op |-> [o |-> "AllocU", t |-> 0, r |-> x], res |-> "ok"]]
  \o [x \in Seeds |-> [op |-> [o |-> "FillU", t |-> 0, id |-> x, n |-> JNode(G[x])], res |-> "ok"]]
  \o <<[op |-> [o |-> "Commit", g |-> 1, t |-> 0], res |-> "ok"]>>

MCInit ==
  \E vs \in {s \in [Seeds -> SeedVs] : TRUE} : \E ls \in SmallSubsets(Universe(vs), SeedLinks) :
    /\ Legal(vs, ls)
    /\ LET G == SeedGraph(vs, ls)  e == Settle(EmptyFn, G, TypeChecks) IN
       /\ e.ok
       /\ ctxs = (1 :> [uuid |-> 1, dist |-> 1])
       /\ dists = (1 :> Seeds)
       /\ graphs = (1 :> [uuid |-> 1, nodes |-> e.G])
       /\ txns = EmptyFn
       /\ hist = SeedHist(G)
    /\ next = SeedNodes + 1 /\ cnt = EmptyFn /\ opened = 0 /\ aux = 0

-----------------------------------------------------------------------------
(* Calls *)

May(op) == op \in Ops
CtxOf(t) == CHOOSE c \in DOMAIN ctxs : ctxs[c].uuid = txns[t].uuid /\ ctxs[c].dist = txns[t].dist
GraphsOf(t) == {g \in DOMAIN graphs : graphs[g].uuid = txns[t].uuid}
LiveIds(t) == UNION {DOMAIN graphs[g].nodes : g \in GraphsOf(t)}
Own(t) == DOMAIN txns[t].inc \cup DOMAIN txns[t].alloc
\* what a call of transaction t may name: live and own nodes, with "ghosts" all indices of its context
\* (an extended node, uid 500 and above, only shows its index in the graph)
Hidden(t) == {x \in DOMAIN txns[t].inc : txns[t].inc[x].d[1] > 500}
Names(t) == (IF May("ghosts") THEN {x \in dists[txns[t].dist] : x > 0} ELSE LiveIds(t) \cup Own(t)) \ Hidden(t)
CurNode(t, x) == IF x \in DOMAIN txns[t].inc THEN txns[t].inc[x]
                 ELSE LET g == CHOOSE g \in GraphsOf(t) : x \in DOMAIN graphs[g].nodes IN graphs[g].nodes[x]
HasNode(t, x) == x \in DOMAIN txns[t].inc \/ x \in LiveIds(t)

\* nodes of variant v with index id and at most InsLinks links into S
NodesOver(v, id, S) ==
  LET U == UNION {{<<l, y>> : y \in S} : l \in Links(v)}
      put(f, u) == [f EXCEPT ![u[1]] = IF Kind(v, u[1]) = "vec" THEN @ \cup {<<Cardinality(@) + 1, u[2]>>}
                                       ELSE IF Kind(v, u[1]) = "dir" THEN {<<0, u[2]>>} ELSE @ \cup {<<0, u[2]>>}]
      F0 == {Blank(v)}
      F1 == IF InsLinks >= 1 THEN {put(Blank(v), u) : u \in U} ELSE {}
      F2 == IF InsLinks >= 2 THEN {put(put(Blank(v), u), w) : u \in U, w \in U} ELSE {}
  IN {[v |-> v, d |-> <<id, 0>>, f |-> f] : f \in F0 \cup F1 \cup F2}

\* edits of a node of variant v with targets S
Puts(v, S) ==
  UNION {CASE Kind(v, l) = "dir" -> {[op |-> "put", l |-> l, ps |-> ps] : ps \in {<<>>} \cup {<<<<0, y>>>> : y \in S}}
           [] Kind(v, l) = "set" -> {[op |-> "put", l |-> l, ps |-> <<>>]}
                                    \cup {[op |-> "ins", l |-> l, y |-> y] : y \in S}
                                    \cup {[op |-> "rem", l |-> l, y |-> y] : y \in S}
           [] Kind(v, l) = "vec" -> {[op |-> "put", l |-> l, ps |-> <<>>]}
                                    \cup {[op |-> "ins", l |-> l, y |-> y] : y \in S}
                                    \cup {[op |-> "put", l |-> l, ps |-> <<<<1, y>>, <<2, 0>>, <<3, y>>>>] : y \in S}
         : l \in Links(v)}
Edits(x, n, S) ==
  Puts(n.v, S)
  \cup (IF May("data") THEN {[op |-> "data", d |-> n.d[2] * 3 + k] : k \in {1, 2}} ELSE {})
  \cup (IF May("become") THEN {[op |-> "become", n |-> m] : m \in UNION {NodesOver(v, n.d[1], S) : v \in Variants}} ELSE {})

Free(t) == cnt[t] < TxOps[t]
Count(t) == cnt' = [cnt EXCEPT ![t] = @ + 1]
Keep == UNCHANGED <<opened, aux>>

Begin ==
  /\ opened < Txns /\ Cardinality(DOMAIN txns) < Open /\ DOMAIN graphs # {}
  /\ \E c \in DOMAIN ctxs :
       \* a context and the one restored from its graph may not be used together
       /\ c = 9 \/ \A d \in DOMAIN ctxs : ctxs[d].uuid = ctxs[c].uuid => ctxs[d].dist = ctxs[c].dist
       /\ NewTxn(opened + 1, c)
       /\ cnt' = ((opened + 1) :> 0) @@ cnt
       /\ Log([o |-> "NewTxn", t |-> opened + 1, c |-> c], "ok")
  /\ opened' = opened + 1 /\ UNCHANGED <<next, aux>>

DoInsert(t) ==
  /\ May("insert") /\ next <= SeedNodes + NewIds
  /\ \E v \in Variants : \E n \in NodesOver(v, next, Names(t)) :
       /\ Insert(t, next, n)
       /\ Log([o |-> "Insert", t |-> t, r |-> next, n |-> JNode(n)], "ok")
  /\ next' = next + 1 /\ Count(t) /\ Keep

\* two nodes at once; indices are shown by the commit only
DoExtend(t) ==
  /\ May("extend") /\ next < SeedNodes + NewIds
  /\ \E v \in Variants, w \in Variants : \E n \in NodesOver(v, 500 + next, LiveIds(t)) :
       LET m == [v |-> w, d |-> <<501 + next, 0>>, f |-> Blank(w)] IN
       /\ Extend(t, (next :> n) @@ ((next + 1) :> m))
       /\ Log([o |-> "Extend", t |-> t, rs |-> <<next, next + 1>>, ns |-> <<JNode(n), JNode(m)>>], "ok")
  /\ next' = next + 2 /\ Count(t) /\ Keep

DoAlloc(t) ==
  /\ next <= SeedNodes + NewIds
  /\ \/ /\ May("allocu") /\ Alloc(t, next, "?") /\ Log([o |-> "AllocU", t |-> t, r |-> next], "ok")
     \/ /\ May("alloc") /\ \E v \in Variants : Alloc(t, next, v)
                             /\ Log([o |-> "Alloc", t |-> t, r |-> next, v |-> v, mac |-> (next % 2 = 0)], "ok")
  /\ next' = next + 1 /\ Count(t) /\ Keep

\* filling an index that is not allocated here, or with another variant, panics
FillNames(t) == IF May("badfill") THEN Names(t) ELSE DOMAIN txns[t].alloc
DoFillIn(t) ==
  /\ \E x \in FillNames(t) : \E v \in Variants : \E n \in NodesOver(v, 100 + x, Names(t)) :
       LET a == IF x \in DOMAIN txns[t].alloc THEN txns[t].alloc[x] ELSE "-"
           typed == [o |-> "Fill", t |-> t, id |-> x, n |-> JNode(n)]
           untyped == [o |-> "FillU", t |-> t, id |-> x, n |-> JNode(n)]
       IN \/ /\ May("fill") /\ (a = v \/ May("badfill"))
             /\ \/ Fill(t, x, n, "ok") /\ Log(typed, "ok")
                \/ Fill(t, x, n, "panic") /\ Show(typed, "panic")
          \/ /\ May("fillu") /\ (a \in {"?", v} \/ (May("badfill") /\ a = "-"))
             /\ \/ FillUntyped(t, x, n, "ok") /\ Log(untyped, "ok")
                \/ FillUntyped(t, x, n, "panic") /\ Show(untyped, "panic")
  /\ Count(t) /\ UNCHANGED next /\ Keep

DoRemove(t) ==
  /\ May("remove")
  /\ \E x \in Names(t) : Remove(t, x) /\ Log([o |-> "Remove", t |-> t, id |-> x], "ok")
  /\ Count(t) /\ UNCHANGED next /\ Keep

Style(k) == IF k % 4 = 3 THEN 9 ELSE k % 4
\* closures: for the plain method (style 9) and the macros (0..2)
DoClosure(t) ==
  /\ \E x \in {y \in Names(t) : HasNode(t, y)} :
       LET n == CurNode(t, x) IN
       \E e \in Edits(x, n, Names(t)) :
         LET bound == e.op \in {"put", "ins", "rem"}
             m == [id |-> x, es |-> <<e>>, want |-> IF bound THEN n.v ELSE ""]
             op(k) == [o |-> k, t |-> t, id |-> x, es |-> <<JEdit(n.v, e)>>, want |-> m.want, style |-> Style(x + next)]
         IN \/ /\ May("mutate")
               /\ \/ Mutate(t, m, "ok") /\ Log(op("Mutate"), "ok")
                  \/ Mutate(t, m, "panic") /\ Show(op("Mutate"), "panic")
            \/ /\ May("update")
               /\ \/ Update(t, m, "ok") /\ Log(op("Update"), "ok")
                  \/ Update(t, m, "panic") /\ Show(op("Update"), "panic")
  /\ Count(t) /\ UNCHANGED next /\ Keep

Olds(rs) == {rs[i][1] : i \in DOMAIN rs}
DoRedirect(t) ==
  /\ \/ /\ May("redir")
        /\ \E a \in Names(t) \ Olds(txns[t].rl), b \in Names(t) \cup {0} :
             RedirectLinks(t, a, b) /\ Log([o |-> "Redir", t |-> t, a |-> a, b |-> b], "ok")
     \/ /\ May("redirall")
        /\ \E a \in Names(t) \ Olds(txns[t].ra), b \in Names(t) \cup {0} :
             RedirectAll(t, a, b) /\ Log([o |-> "RedirAll", t |-> t, a |-> a, b |-> b], "ok")
  /\ Count(t) /\ UNCHANGED next /\ Keep

DoIsEmpty(t) ==
  /\ May("isempty") /\ aux < 1
  /\ ShowVal([o |-> "IsEmpty", t |-> t], TxnEmpty(txns[t]))
  /\ aux' = aux + 1
  /\ UNCHANGED <<ctxs, dists, graphs, txns, next, cnt, opened>>

DoMerge(t) ==
  /\ May("merge")
  /\ \E g \in DOMAIN graphs :
       \/ Merge(t, g, "ok") /\ Log([o |-> "Merge", t |-> t, g |-> g], "ok")
       \/ Merge(t, g, "panic") /\ Show([o |-> "Merge", t |-> t, g |-> g], "panic")
  /\ Count(t) /\ UNCHANGED next /\ Keep

DoGiveUp(t) ==
  /\ May("giveup") /\ GiveUp(t)
  /\ Show([o |-> "GiveUp", t |-> t, how |-> t % 2], "ok")
  /\ UNCHANGED <<next, cnt>> /\ Keep

DoCommit(t) ==
  /\ \E g \in DOMAIN graphs :
       LET op == [o |-> "Commit", g |-> g, t |-> t] IN
       /\ (May("unfilled") \/ graphs[g].uuid # txns[t].uuid \/ DOMAIN txns[t].alloc = {})
       /\ (May("foreign") \/ graphs[g].uuid = txns[t].uuid)
       /\ \/ Commit(g, t, "ok") /\ Show(op, "ok")
          \/ Commit(g, t, "panic") /\ Show(op, "panic")
          \/ Commit(g, t, "refused") /\ Show(op, "panic")
  /\ UNCHANGED <<next, cnt>> /\ Keep

\* calls that do not belong to a transaction
DoCtx ==
  /\ May("newctx") /\ 2 \notin DOMAIN ctxs
  /\ NewCtx(2) /\ Log([o |-> "NewCtx", c |-> 2, how |-> 1], "ok")
  /\ UNCHANGED <<next, cnt>> /\ Keep
DoClone ==
  /\ May("clonectx") /\ 3 \notin DOMAIN ctxs
  /\ CloneCtx(3, 1) /\ Log([o |-> "CloneCtx", c |-> 3, of |-> 1], "ok")
  /\ UNCHANGED <<next, cnt>> /\ Keep
DoGraph ==
  /\ May("newgraph") /\ 2 \notin DOMAIN graphs
  /\ \E c \in DOMAIN ctxs : NewGraph(2, c) /\ Log([o |-> "NewGraph", g |-> 2, c |-> c], "ok")
  /\ UNCHANGED <<next, cnt>> /\ Keep
\* a switched node x is called g2 * 1000 + x
DoSwitch ==
  /\ May("switch") /\ aux < 2
  /\ \E g \in DOMAIN graphs : \E c \in DOMAIN ctxs :
       LET g2 == g + 10
           map == [x \in DOMAIN graphs[g].nodes |-> g2 * 1000 + x]
           op == [o |-> "Switch", g |-> g, c |-> c, g2 |-> g2, base |-> g2 * 1000]
       IN /\ g2 < 30
          /\ \/ SwitchCtx(g, c, g2, map, "ok") /\ Show(op, "ok")
             \/ SwitchCtx(g, c, g2, map, "panic") /\ Show(op, "panic")
  /\ aux' = aux + 1 /\ UNCHANGED <<next, cnt, opened>>
\* no transaction is open; the original is dropped, so that its context is not used any more
DoSerde ==
  /\ May("serde") /\ aux < 1 /\ DOMAIN txns = {}
  /\ \E g \in DOMAIN graphs : \E mode \in 0..3 :
       LET op == [o |-> "Serde", g |-> g, g2 |-> g + 100, c2 |-> 9, keep |-> FALSE, mode |-> mode] IN
       \/ Serde(g, g + 100, 9, FALSE, "ok") /\ Show(op, "ok")
       \/ Serde(g, g + 100, 9, FALSE, "panic") /\ Show(op, "panic")
  /\ aux' = aux + 1 /\ UNCHANGED <<next, cnt, opened>>

MCNext ==
  \/ Begin \/ DoCtx \/ DoClone \/ DoGraph \/ DoSwitch \/ DoSerde
  \/ \E t \in DOMAIN txns :
       \/ /\ Free(t)
          /\ \/ DoInsert(t) \/ DoExtend(t) \/ DoAlloc(t) \/ DoFillIn(t) \/ DoRemove(t) \/ DoClosure(t)
             \/ DoRedirect(t) \/ DoMerge(t)
       \/ DoIsEmpty(t) \/ DoGiveUp(t) \/ DoCommit(t)

MCSpec == MCInit /\ [][MCNext]_mcvars

-----------------------------------------------------------------------------
(* The properties, stated on steps.  They do not use the definition of CommitEffect. *)

Last == hist'[Len(hist')]
Called(o, res) == Len(hist') > Len(hist) /\ Last.op.o = o /\ Last.res = res
Committed == Called("Commit", "ok")
G0 == graphs[Last.op.g].nodes
G1 == graphs'[Last.op.g].nodes
Tx == txns[Last.op.t]
Closures == {Tx.muts[i].id : i \in DOMAIN Tx.muts} \cup {Tx.upds[i].id : i \in DOMAIN Tx.upds}
RlOlds == Olds(Tx.rl)
RaOlds == Olds(Tx.ra)
NoBidi == BidiPairs = {}
\* where a chain of requests leads: reachable by requests, and not itself redirected
RECURSIVE Reach(_, _)
Reach(rs, S) == LET N == S \cup {rs[i][2] : i \in {j \in DOMAIN rs : rs[j][1] \in S}} IN IF N = S THEN S ELSE Reach(rs, N)
EndOf(rs, y) == IF y \in Olds(rs) THEN CHOOSE z \in Reach(rs, {y}) : z \notin Olds(rs) ELSE y
Mapped(ps, f(_)) == {<<p[1], f(p[2])>> : p \in ps} \ {<<0, 0>>}

\* C01: the node set, and the frame
PropC01 == [][Committed =>
  /\ DOMAIN G1 = (DOMAIN G0 \cup DOMAIN Tx.inc) \ Tx.dec
  /\ Closures \cup Tx.dec \subseteq DOMAIN G0 \cup DOMAIN Tx.inc
  /\ NoBidi => \A x \in DOMAIN G0 \cap DOMAIN G1 :
       /\ (x \notin Closures /\ Targets(G0[x]) \cap (RlOlds \cup RaOlds \cup Tx.dec) = {}) => G1[x] = G0[x]
       /\ x \notin Closures => G1[x].v = G0[x].v /\ G1[x].d = G0[x].d
  /\ \A x \in DOMAIN Tx.inc \cap DOMAIN G1 :
       (NoBidi /\ x \notin Closures /\ Targets(Tx.inc[x]) \cap (RaOlds \cup Tx.dec) = {}) => G1[x] = Tx.inc[x]
  ]_mcvars

\* C02: only a commit changes a graph, and only its own
PropC02 == [][
  /\ \A g \in DOMAIN graphs \cap DOMAIN graphs' :
       graphs'[g] # graphs[g] => Committed /\ Last.op.g = g
  /\ Called("GiveUp", "ok") => graphs' = graphs
  \* and the other transactions are as they were
  /\ \A t \in DOMAIN txns \cap DOMAIN txns' : txns'[t] # txns[t] => Last.op.t = t
  ]_mcvars

\* C03
PropC03 == [][
  /\ \A d \in DOMAIN dists : dists[d] \subseteq dists'[d]
  /\ \A d \in DOMAIN dists, t \in DOMAIN txns \cap DOMAIN txns' :
       txns[t].dist = d => \A x \in (DOMAIN txns'[t].inc \cup DOMAIN txns'[t].alloc) \ (DOMAIN txns[t].inc \cup DOMAIN txns[t].alloc) :
          \/ x \notin dists[d]
          \/ Called("Merge", "ok")
  ]_mcvars

\* C04, C05
PropC04 == [][
  /\ Committed => Tx.alloc = EmptyFn
  /\ (Called("Commit", "panic") /\ Tx.alloc # EmptyFn) => graphs' = graphs
  /\ Called("Fill", "ok") => LET x == Last.op.id  t == Last.op.t IN
        /\ txns[t].alloc[x] = Last.op.n.v /\ txns'[t].inc[x].v = Last.op.n.v /\ x \notin DOMAIN txns'[t].alloc
  /\ (Called("Fill", "panic") \/ Called("FillU", "panic")) => graphs' = graphs
  ]_mcvars
PropC05 == [][
  /\ Committed => graphs[Last.op.g].uuid = Tx.uuid
  /\ (Called("Commit", "panic") /\ graphs[Last.op.g].uuid # Tx.uuid) => graphs' = graphs
  /\ Called("Merge", "ok") => graphs[Last.op.g].uuid = txns[Last.op.t].uuid
  /\ Called("Merge", "panic") => graphs' = Without(graphs, {Last.op.g})
  ]_mcvars

\* C06
PropC06 == [][Committed =>
  /\ Tx.dec \subseteq DOMAIN G0 \cup DOMAIN Tx.inc
  /\ Tx.dec \cap DOMAIN G1 = {} /\ AllTargets(G1) \cap Tx.dec = {}
  /\ \A x \in DOMAIN G0 \cap DOMAIN G1 :
       (NoBidi /\ x \notin Closures /\ Tx.rl = <<>> /\ Tx.ra = <<>>) =>
         \A l \in Links(G0[x].v) : G1[x].f[l] = Mapped(G0[x].f[l], LAMBDA y : IF y \in Tx.dec THEN 0 ELSE y)
  ]_mcvars

\* C07
PropC07 == [][Committed =>
  /\ NoBidi => AllTargets(G1) \cap RaOlds = {}
  /\ \A x \in DOMAIN G0 \cap DOMAIN G1 :
       (NoBidi /\ x \notin Closures /\ Tx.dec = {} /\ Tx.ra = <<>>) =>
         \A l \in Links(G0[x].v) : G1[x].f[l] = Mapped(G0[x].f[l], LAMBDA y : EndOf(Tx.rl, y))
  /\ \A x \in DOMAIN Tx.inc \cap DOMAIN G1 :
       (NoBidi /\ x \notin Closures /\ Tx.dec = {}) =>
         \A l \in Links(Tx.inc[x].v) : G1[x].f[l] = Mapped(Tx.inc[x].f[l], LAMBDA y : EndOf(Tx.ra, y))
  ]_mcvars

\* C09: opposites of what was added are there, opposites of what was removed are gone, nothing else moved
PropC09 == [][(Committed /\ OneToOne) =>
  /\ \A t \in Added(G0, G1) : (t[1] \in DOMAIN G1 /\ t[4] \in DOMAIN G1) =>
       LET o == Opp(t[2], t[3], G1[t[4]].v) IN o = {} \/ \E l \in o : Holds(G1[t[4]], l, t[1])
  /\ \A t \in Removed(G0, G1) : (t[1] \in DOMAIN G1 /\ t[4] \in DOMAIN G1 /\ G1[t[1]].v = t[2] /\ Occ(G1, t) = 0) =>
       \A l \in Opp(t[2], t[3], G1[t[4]].v) : ~Holds(G1[t[4]], l, t[1])
  /\ \A x \in DOMAIN G0 \cap DOMAIN G1 :
       (x \notin Closures \cup UNION {Targets(G1[y]) \cup (IF y \in DOMAIN G0 THEN Targets(G0[y]) ELSE {})
                                      : y \in Closures \cap DOMAIN G1}
           \cup UNION {Targets(Tx.inc[y]) : y \in DOMAIN Tx.inc}
        /\ Tx.rl = <<>> /\ Tx.ra = <<>> /\ Targets(G0[x]) \cap Tx.dec = {}) => G1[x] = G0[x]
  ]_mcvars

\* C11: what was added is of a declared type
PropC11 == [][(Committed /\ TypeChecks) =>
  \A t \in Added(G0, G1) : (t[1] \in DOMAIN G1 /\ t[4] \in DOMAIN G1) => G1[t[4]].v \in Allowed(t[2], t[3])
  ]_mcvars

\* C15
PropC15 == [][Called("Serde", "ok") =>
  LET a == graphs[Last.op.g].nodes  b == graphs'[Last.op.g2].nodes  c == ctxs'[Last.op.c2] IN
  /\ (NoBidi \/ Symmetric(a)) => a = b
  /\ c.uuid = graphs'[Last.op.g2].uuid
  /\ DOMAIN b \cup AllTargets(b) \subseteq dists'[c.dist]
  ]_mcvars

\* C16
PropC16 == [][Called("Switch", "ok") =>
  LET a == graphs[Last.op.g].nodes  b == graphs'[Last.op.g2].nodes  k == Last.op.base
      re(y) == IF y \in DOMAIN a THEN y + k ELSE 0 IN
  /\ DOMAIN b = {x + k : x \in DOMAIN a}
  /\ graphs'[Last.op.g2].uuid = ctxs[Last.op.c].uuid
  /\ \A x \in DOMAIN a : b[x + k].v = a[x].v /\ b[x + k].d = a[x].d
  /\ (NoBidi \/ (Symmetric(a) /\ Closed(a))) =>
       \A x \in DOMAIN a : \A l \in DOMAIN a[x].f : b[x + k].f[l] = Mapped(a[x].f[l], re)
  ]_mcvars

\* C17: merged nodes are own nodes of the transaction, as they were, and nothing else changes
PropC17 == [][Called("Merge", "ok") =>
  LET t == Last.op.t  g == Last.op.g IN
  /\ txns'[t].inc = graphs[g].nodes @@ txns[t].inc
  /\ DOMAIN graphs[g].nodes \cap DOMAIN txns[t].inc = {}
  /\ [txns'[t] EXCEPT !.inc = EmptyFn] = [txns[t] EXCEPT !.inc = EmptyFn]
  ]_mcvars

\* C20: what is done to an own node is in the transaction at once, and the queues do not grow
PropC20 == [][(Called("Mutate", "ok") \/ Called("Update", "ok") \/ Called("Remove", "ok")) =>
  LET t == Last.op.t  x == Last.op.id IN
  x \in DOMAIN txns[t].inc =>
    /\ txns'[t].muts = txns[t].muts /\ txns'[t].upds = txns[t].upds /\ txns'[t].dec = txns[t].dec
    /\ Last.op.o = "Remove" <=> x \notin DOMAIN txns'[t].inc
  ]_mcvars
=============================================================================
