------------------------------ MODULE TraceTT ------------------------------
(***************************************************************************)
(* Trace validation: every recorded history of the real code has to be a   *)
(* behaviour of TTGraph.  A history is a sequence of logged events; each   *)
(* step takes the action that the event names, with the logged arguments,  *)
(* and requires the logged outcome.  An event that no action explains is a *)
(* deadlock of this module.                                                *)
(***************************************************************************)
EXTENDS TTGraph

CONSTANT Mode    \* "strict", or "loose": outcomes are taken over from the log, only observations are judged
CONSTANTS
  Asserts,        \* debug assertions are on
  JudgeIds,       \* indices handed out are judged
  Universal       \* invariants that hold for every history are checked

Hists == ndJsonDeserialize(IOEnv.TT_TRACE)

VARIABLES h, l

Strict == Mode = "strict"
Evs == Hists[h].evs
E == Evs[l]
Say(what, x) == PrintT(<<"REJECT", h, l, what, x>>) /\ FALSE
Must(what, got, want) == IF got = want THEN TRUE ELSE Say(what, [got |-> got, want |-> want])
Check(what, b) == IF b THEN TRUE ELSE Say(what, E)

NodeOf(j) == [v |-> j.v, d |-> j.d, f |-> [x \in Links(j.v) |-> Range(j.f[x])]]
GraphOf(d) == [x \in {d[i][1] : i \in DOMAIN d} |-> NodeOf(d[CHOOSE i \in DOMAIN d : d[i][1] = x][2])]
FnOf(ps) == [x \in {ps[i][1] : i \in DOMAIN ps} |-> ps[CHOOSE i \in DOMAIN ps : ps[i][1] = x][2]]
EditOf(e) == IF e.op = "become" THEN [op |-> "become", n |-> NodeOf(e.n)] ELSE e
ClosureOf(m) == [id |-> m.id, want |-> m.want, k |-> m.k, es |-> [i \in DOMAIN m.es |-> EditOf(m.es[i])]]

TraceInit == Init /\ h \in DOMAIN Hists /\ l = 1

-----------------------------------------------------------------------------
(* Loose mode: what the code did is taken over, to judge what it shows afterwards *)

NoIssue == UNCHANGED dists
IssueL(dist, ids) == IF JudgeIds THEN Check("fresh", Fresh(dist, ids)) /\ Issue(dist, ids) ELSE NoIssue
Loose ==
  CASE E.e = "Insert" -> /\ IssueL(txns[E.t].dist, {E.id})
                         /\ txns' = [txns EXCEPT ![E.t].inc = (E.id :> NodeOf(E.n)) @@ @]
                         /\ UNCHANGED <<ctxs, graphs>>
    [] E.e = "Extend" -> /\ LET ns == GraphOf(E.ns) IN
                            /\ IF JudgeIds THEN Check("extend ids differ", Cardinality(DOMAIN ns) = Len(E.ns)) ELSE TRUE
                            /\ IssueL(txns[E.t].dist, DOMAIN ns)
                         /\ UNCHANGED <<ctxs, graphs, txns>>
    [] E.e = "Alloc" -> IssueL(txns[E.t].dist, {E.id}) /\ UNCHANGED <<ctxs, graphs, txns>>
    [] E.e \in {"Fill", "FillU", "Mutate", "Update"} ->
         txns' = (IF E.res = "ok" THEN txns ELSE Without(txns, {E.t})) /\ UNCHANGED <<ctxs, dists, graphs>>
    [] E.e = "Merge" -> graphs' = Without(graphs, {E.g}) /\ UNCHANGED <<ctxs, dists, txns>>
    [] E.e \in {"Commit", "CommitC"} ->
         /\ graphs' = IF E.res = "ok" \/ graphs[E.g].uuid # txns[E.t].uuid \/ E.dump # <<>>
                      THEN [graphs EXCEPT ![E.g].nodes = GraphOf(E.dump)]
                      ELSE Without(graphs, {E.g})
         /\ txns' = Without(txns, {E.t})
         /\ UNCHANGED <<ctxs, dists>>
    [] E.e = "Switch" ->
         /\ graphs' = IF E.res = "ok"
                      THEN (E.g2 :> [uuid |-> ctxs[E.c].uuid, nodes |-> GraphOf(E.dump)]) @@ Without(graphs, {E.g})
                      ELSE Without(graphs, {E.g})
         /\ IF E.res = "ok" THEN IssueL(ctxs[E.c].dist, {E.dump[i][1] : i \in DOMAIN E.dump}) ELSE NoIssue
         /\ UNCHANGED <<ctxs, txns>>
    [] E.e = "Serde" ->
         /\ LET rest == IF E.keep THEN graphs ELSE Without(graphs, {E.g})
                G == GraphOf(E.dump) IN
            IF E.res = "ok"
            THEN /\ graphs' = (E.g2 :> [uuid |-> graphs[E.g].uuid, nodes |-> G]) @@ rest
                 /\ ctxs' = (E.c2 :> [uuid |-> graphs[E.g].uuid, dist |-> E.c2]) @@ ctxs
                 /\ dists' = (E.c2 :> (DOMAIN G \cup AllTargets(G))) @@ dists
            ELSE graphs' = rest /\ UNCHANGED <<ctxs, dists>>
         /\ UNCHANGED txns
    [] E.e \in {"Remove", "Redir", "RedirAll"} -> UNCHANGED <<ctxs, dists, graphs, txns>>
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* Strict mode *)

StrictStep ==
  CASE E.e = "Insert" -> Check("fresh", Fresh(txns[E.t].dist, {E.id})) /\ Insert(E.t, E.id, NodeOf(E.n))
    [] E.e = "Extend" -> LET ns == GraphOf(E.ns) IN
                         /\ Check("extend ids differ", Cardinality(DOMAIN ns) = Len(E.ns))
                         /\ Check("fresh", Fresh(txns[E.t].dist, DOMAIN ns))
                         /\ Extend(E.t, ns)
    [] E.e = "Alloc" -> Check("fresh", Fresh(txns[E.t].dist, {E.id})) /\ Alloc(E.t, E.id, E.v)
    [] E.e = "Fill" -> \E r \in {"ok", "panic"} : Fill(E.t, E.id, NodeOf(E.n), r) /\ Must("fill_back", E.res, r)
    [] E.e = "FillU" -> \E r \in {"ok", "panic"} : FillUntyped(E.t, E.id, NodeOf(E.n), r) /\ Must("fill_back_untyped", E.res, r)
    [] E.e = "Remove" -> Remove(E.t, E.id)
    [] E.e = "Mutate" -> \E r \in {"ok", "panic"} : Mutate(E.t, ClosureOf(E.m), r) /\ Must("mutate", E.res, r)
    [] E.e = "Update" -> \E r \in {"ok", "panic"} : Update(E.t, ClosureOf(E.m), r) /\ Must("update", E.res, r)
    [] E.e = "Redir" -> RedirectLinks(E.t, E.a, E.b)
    [] E.e = "RedirAll" -> RedirectAll(E.t, E.a, E.b)
    [] E.e = "Merge" -> \E r \in {"ok", "panic"} : Merge(E.t, E.g, r) /\ Must("merge", E.res, r)
    [] E.e = "Commit" ->
         \E r \in {"ok", "panic", "refused"} :
           /\ Commit(E.g, E.t, r)
           /\ Must("commit outcome", E.res, Seen(r))
           /\ IF r = "panic" THEN TRUE ELSE Must("graph after commit", GraphOf(E.dump), graphs'[E.g].nodes)
    [] E.e = "CommitC" -> 
         LET gr == graphs[E.g]  tx == txns[E.t] IN
         /\ Check("a removed or replaced check was called", E.gone = <<>>)
         /\ IF ~Accepts(gr, tx)
            THEN /\ Must("checked commit outcome", E.res, "panic")
                 /\ Must("graph after refused commit", GraphOf(E.dump), gr.nodes)
                 /\ graphs' = graphs
            ELSE LET e == CommitEffect(gr.nodes, tx) IN
                 IF ~e.ok THEN /\ Must("checked commit outcome", E.res, "panic")
                               /\ graphs' = Without(graphs, {E.g})
                 ELSE LET G0 == gr.nodes  G1 == e.G
                          mustN == MustNodes(G0, G1)  mayN == MayNodes(G0, G1, tx)
                          mustA == MustAdd(G0, G1)    mayA == MayAdd(G0, G1)
                          mustR == MustRem(G0, G1)    mayR == MayRem(G0, G1)
                          In(f, N, A, R) == CASE f[1] = "n" -> f[2] \in N
                                              [] f[1] = "a" -> <<f[2], f[3]>> \in A
                                              [] f[1] = "r" -> <<f[2], f[3]>> \in R
                          mustFail == \E i \in DOMAIN E.fail : In(E.fail[i], mustN, mustA, mustR)
                          mayFail == \E i \in DOMAIN E.fail : In(E.fail[i], mayN, mayA, mayR)
                          ids(s) == {s[i][1] : i \in DOMAIN s}
                          prs(s) == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
                          arg(y) == IF y \in DOMAIN G1 THEN G1[y].d ELSE <<>>
                          linkArgs(s) == \A i \in DOMAIN s : s[i][3] = arg(s[i][1]) /\ s[i][4] = arg(s[i][2])
                      IN /\ IF mustFail THEN Must("checked commit outcome", E.res, "panic")
                            ELSE IF ~mayFail THEN Must("checked commit outcome", E.res, "ok") ELSE TRUE
                         /\ \A k \in {1, 2} :
                              /\ Check("node check on an unaffected node", ids(E.nc[k]) \subseteq mayN)
                              /\ Check("link add check on a link that was not added", prs(E.ac[k]) \subseteq mayA)
                              /\ Check("link remove check on a link that was not removed", prs(E.rc[k]) \subseteq mayR)
                              /\ \A i \in DOMAIN E.nc[k] : Must("node shown to a check", NodeOf(E.nc[k][i][2]), G1[E.nc[k][i][1]])
                              /\ Check("nodes shown to link checks", linkArgs(E.ac[k]) /\ linkArgs(E.rc[k]))
                              /\ IF E.res = "panic" THEN TRUE
                                 ELSE /\ Check("a node check was skipped", mustN \subseteq ids(E.nc[k]))
                                      /\ Check("a link add check was skipped", mustA \subseteq prs(E.ac[k]))
                                      /\ Check("a link remove check was skipped", mustR \subseteq prs(E.rc[k]))
                         /\ IF E.res = "ok"
                            THEN /\ Must("graph after checked commit", GraphOf(E.dump), G1)
                                 /\ graphs' = [graphs EXCEPT ![E.g].nodes = G1]
                            ELSE graphs' = Without(graphs, {E.g})
         /\ txns' = Without(txns, {E.t})
         /\ UNCHANGED <<ctxs, dists>>
    [] E.e = "Switch" ->
         LET map == IF E.res = "ok" THEN FnOf(E.map) ELSE [x \in DOMAIN graphs[E.g].nodes |-> x] IN
         /\ Check("every node has one counterpart", DOMAIN map = DOMAIN graphs[E.g].nodes)
         /\ Check("counterparts differ", Cardinality(Range(map)) = Cardinality(DOMAIN map))
         /\ IF E.res = "ok" THEN Check("fresh", Fresh(ctxs[E.c].dist, Range(map))) ELSE TRUE
         /\ \E r \in {"ok", "panic"} :
              /\ SwitchCtx(E.g, E.c, E.g2, map, r)
              /\ Must("switch_context outcome", E.res, r)
         /\ IF E.res = "panic" THEN TRUE ELSE Must("graph after switch_context", GraphOf(E.dump), graphs'[E.g2].nodes)
    [] E.e = "Serde" ->
         \E r \in {"ok", "panic"} :
           /\ Serde(E.g, E.g2, E.c2, E.keep, r)
           /\ Must("serialization outcome", E.res, r)
           /\ IF r = "panic" THEN TRUE ELSE Must("deserialized graph", GraphOf(E.dump), graphs'[E.g2].nodes)
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* Observations *)

\* s lists every element of S exactly once
Lists(s, S) == Len(s) = Cardinality(S) /\ Range(s) = S
CountsDown(lens, n) == lens = [i \in 1..(n + 1) |-> n + 1 - i]
ViewsOK ==
  LET G == graphs[E.g].nodes  D == DOMAIN G  n == Cardinality(D)
      OfType(v) == {x \in D : G[x].v = v}
      OfGroup(name) == {x \in D : InVGroup(G[x].v, name)}
  IN /\ Must("iter contents", GraphOf(E.dump), G)
     /\ Must("len", E.len, n) /\ Must("is_empty", E.empty, n = 0)
     /\ Check("iter indices", Lists(E.iter, D)) /\ Check("iter lengths", CountsDown(E.lens, n))
     /\ Must("cloned iterator", E.clone, n) /\ Check("iterator ends", E.fused)
     /\ Check("&graph iteration", Lists(E.refs, D))
     /\ Check("get", Lists(E.gets, D))
     /\ Check("views show different contents", E.diff = <<>>)
     /\ \A v \in Variants :
          LET x == E.types[v]  S == OfType(v) IN
          /\ Check("iter_type", Lists(x.it, S)) /\ Check("iter_type lengths", CountsDown(x.lens, Cardinality(S)))
          /\ Check("iter_nodes!", Lists(x.mac, S) /\ x.maclen = Cardinality(S))
          /\ Check("get_node!", Lists(x.get, S))
     /\ \A name \in DOMAIN E.groups : Check("iter_group", Lists(E.groups[name], OfGroup(name)))

DataOf(n, rich, name, ty) ==
  CASE name = "uid" /\ ty = "usize" -> <<n.d[1]>>
    [] name = "pay" /\ ty = "i64" -> <<n.d[2]>>
    [] rich /\ name = "name" /\ ty = "String" -> <<"n" \o ToString(n.d[2])>>
    [] rich /\ name = "tup" /\ ty = "tup" -> <<n.d[2], n.d[1]>>
    [] rich /\ name = "arr" /\ ty = "arr" -> <<n.d[2], 0 - n.d[2]>>
    [] OTHER -> <<>>
ReflectOK ==
  LET G == graphs[E.g].nodes IN
  /\ Check("reflected nodes", Lists([i \in DOMAIN E.ns |-> E.ns[i].id], DOMAIN G))
  /\ \A i \in DOMAIN E.ns :
       LET r == E.ns[i]  n == G[r.id]  v == n.v
           rich == Schema.variants[v].rich = 1
           one(name) == IF name \in Links(v) THEN {name} ELSE {}
           grp(name) == {x \in Links(v) : name \in GroupsOf(v, x)}
           dnames == {"uid", "pay"} \cup (IF rich THEN {"name", "tup", "arr"} ELSE {})
       IN /\ Must("reflected node", NodeOf(r.n), n)
          /\ \A name \in DOMAIN r.bn :
               /\ Must("links by name", <<name, Bag(r.bn[name])>>, <<name, LinkBag(n, one(name))>>)
               /\ Must("links by name (typed)", <<name, Bag(r.tn[name])>>, <<name, LinkBag(n, one(name))>>)
          /\ \A name \in DOMAIN r.bg :
               /\ Must("links by group", <<name, Bag(r.bg[name])>>, <<name, LinkBag(n, grp(name))>>)
               /\ Must("links by group (typed)", <<name, Bag(r.tg[name])>>, <<name, LinkBag(n, grp(name))>>)
          /\ Must("all links", Bag(r.all), LinkBag(n, Links(v)))
          /\ Check("link names", Lists(r.ln, Links(v)))
          /\ Must("link kinds", r.lt, [k \in DOMAIN r.ln |-> Kind(v, r.ln[k])])
          /\ Check("data names", Lists(r.dn, dnames))
          /\ \A k \in DOMAIN r.data :
               Must("data by name", r.data[k], <<r.data[k][1], r.data[k][2], DataOf(n, rich, r.data[k][1], r.data[k][2])>>)
          /\ Must("link mirrors", Len(r.ms), Cardinality(Links(v)))
          /\ \A k \in DOMAIN r.ms :
               LET m == r.ms[k]  want == LinkBag(n, {r.ln[k]})
                   held == {y \in Range(r.probe) : y # 0 /\ Holds(n, r.ln[k], y)} IN
               /\ Must("links by mirror", <<r.ln[k], Bag(m.it), Bag(m.ite)>>, <<r.ln[k], want, want>>)
               /\ Must("contains_link", <<r.ln[k], Range(m.has), Range(m.hase)>>, <<r.ln[k], held, held>>)
               /\ Must("check_link", m.fits, TRUE)
          /\ Must("mirrors of other variants", r.misfits, 0)
          /\ \A name \in DOMAIN r.log :
               LET x == r.log[name]  isGrp == name \in LinkGroups(v) IN
               /\ Must("link or group by name", <<name, x.some>>, <<name, name \in Links(v) \/ isGrp>>)
               /\ Check("links of a link or group", Lists(x.ls, IF name \in Links(v) THEN {name} ELSE grp(name)))
          /\ \A name \in DOMAIN r.ing : Must("in_group", <<name, r.ing[name]>>, <<name, InVGroup(v, name)>>)

\* many indices drawn by one thread, in any interleaving with others
Batch ==
  /\ E.e = "Batch"
  /\ LET ids == Range(E.ids)  d == ctxs[E.c].dist IN
     /\ IF Cardinality(ids) # Len(E.ids) THEN Say("an index was drawn twice by one thread", Len(E.ids)) ELSE TRUE
     /\ IF ~Fresh(d, ids) THEN Say("not fresh", ids \cap (dists[d] \cup {0})) ELSE TRUE
     /\ Issue(d, ids)
  /\ UNCHANGED <<ctxs, graphs, txns>>

Observation ==
  /\ CASE E.e = "IsEmpty" -> (~Strict \/ Must("is_empty", E.b, TxnEmpty(txns[E.t])))
       [] E.e = "Views" -> ViewsOK
       [] E.e = "Reflect" -> ReflectOK
       [] E.e = "Integrity" ->
            (~Strict \/ Must("check_integrity", E.res,
                             IF TypeChecks /\ Asserts /\ ~Closed(graphs[E.g].nodes) THEN "panic" ELSE "ok"))
       [] E.e = "Observe" ->
            /\ Must("live graphs", {E.gs[i][1] : i \in DOMAIN E.gs}, DOMAIN graphs)
            /\ \A i \in DOMAIN E.gs : Must("graph observed", GraphOf(E.gs[i][2]), graphs[E.gs[i][1]].nodes)
       [] OTHER -> FALSE
  /\ UNCHANGED <<ctxs, dists, graphs, txns>>

Consumed ==
  /\ E.e = "Consume"
  /\ LET G == graphs[E.g].nodes  n == Cardinality(DOMAIN G) IN
     /\ Must("consumed graph", GraphOf(E.dump), G)
     /\ Must("consumed nodes", Len(E.dump), n)
     /\ Check("consuming iterator lengths", CountsDown(E.lens, n) /\ E.fused)
  /\ DropGraph(E.g)

Step ==
  CASE E.e = "NewCtx" -> NewCtx(E.c)
    [] E.e = "CloneCtx" -> CloneCtx(E.c, E.of)
    [] E.e = "NewGraph" -> NewGraph(E.g, E.c)
    [] E.e = "NewTxn" -> NewTxn(E.t, E.c)
    [] E.e = "GiveUp" -> GiveUp(E.t)
    [] E.e = "DropGraph" -> DropGraph(E.g)
    [] E.e = "Consume" -> Consumed
    [] E.e \in {"IsEmpty", "Views", "Reflect", "Integrity", "Observe"} -> Observation
    [] E.e = "Batch" -> Batch
    [] E.e \in {"Broken", "Hang"} -> Say("a call that must not fail", E)
    \* the history could not go on after what the code did before
    [] E.e = "Cut" -> IF Strict THEN Say("a history that could not go on", E) ELSE UNCHANGED <<ctxs, dists, graphs, txns>>
    [] OTHER -> IF Strict THEN StrictStep ELSE Loose

\* Which closures of the user ran during the call: once each, in call order, and never before their time
IsPrefix(s, t) == Len(s) <= Len(t) /\ \A i \in DOMAIN s : s[i] = t[i]
ClosuresRun ==
  CASE E.e \in {"Mutate", "Update"} ->
         IF E.res = "panic" THEN TRUE
         ELSE Must("closures run by the call", E.ran, IF E.m.id \in DOMAIN txns[E.t].inc THEN <<E.m.k>> ELSE <<>>)
    [] E.e \in {"Commit", "CommitC"} ->
         IF ~Accepts(graphs[E.g], txns[E.t]) THEN Must("closures run by a refused commit", E.ran, <<>>)
         ELSE IF E.res = "ok" THEN Must("order of closures", E.ran, ClosureOrder(txns[E.t]))
         ELSE Check("order of closures", IsPrefix(E.ran, ClosureOrder(txns[E.t])))
    [] E.e = "GiveUp" -> Must("closures run by giving up", E.ran, <<>>)
    [] OTHER -> Check("closures run", "ran" \notin DOMAIN E)

TraceNext == IF l > Len(Evs) THEN UNCHANGED <<ctxs, dists, graphs, txns, h, l>>
        ELSE (~Strict \/ ClosuresRun) /\ Step /\ l' = l + 1 /\ h' = h

Spec == TraceInit /\ [][TraceNext]_<<ctxs, dists, graphs, txns, h, l>>

-----------------------------------------------------------------------------
\* Properties that every validated state has as well
Inv == Universal => AllWellFormed /\ IndicesIssued
\* only for profiles whose histories never ask for a link outside the graph
InvClosed == AllClosed
InvSymmetric == AllSymmetric

Where == [h |-> h, l |-> l]
=============================================================================
