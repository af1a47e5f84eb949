------------------------------- MODULE TTGraph -------------------------------
(***************************************************************************)
(* Specification of TTGraph: a typed graph container whose only way of     *)
(* change is the commit of a transaction.                                  *)
(*                                                                         *)
(* The specification is parameterised by a schema (the node declarations   *)
(* and the node_enum! declaration of the user, before any group is         *)
(* expanded).  One action per public call; a commit is one atomic action   *)
(* whose effect is composed of the documented phases.                      *)
(*                                                                         *)
(* Representation of a node:  [v |-> variant, d |-> data, f |-> links]     *)
(* where f maps every link field to a set of <<slot, index>> pairs.        *)
(*    direct link : {} or {<<0, y>>}                                       *)
(*    set link    : {<<0, y1>>, <<0, y2>>, ...}                            *)
(*    vector link : {<<1, y1>>, <<2, y2>>, ...}; y = 0 is an empty slot    *)
(* Index 0 is the empty index.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Declare, SchemaIn

\* SchemaIn supplies
\*   Schema == [variants |-> [V |-> [links |-> [L |-> [k, groups]], phantom]], vgroups, bidi, ltypes]
CONSTANTS
  TypeChecks    \* TRUE iff the "debug" feature is on

VARIABLES
  ctxs,    \* context handle -> [uuid, dist]
  dists,   \* index distributer -> set of indices handed out so far
  graphs,  \* graph handle -> [uuid, nodes]   (live graphs only)
  txns     \* transaction handle -> pending operations (open transactions only)

vars == <<ctxs, dists, graphs, txns>>

EmptyFn == [x \in {} |-> 0]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Without(fn, S) == [x \in (DOMAIN fn) \ S |-> fn[x]]

-----------------------------------------------------------------------------
(* The schema: expansion of groups *)

Variants == DOMAIN Schema.variants
Links(v) == LinksIn(Schema, v)
Kind(v, l) == Schema.variants[v].links[l].k
GroupsOf(v, l) == GroupsIn(Schema, v, l)
LinkGroups(v) == LinkGroupsIn(Schema, v)
VGroups == DOMAIN Schema.vgroups

\* all written-out pairs <<v1, l1, v2, l2>>, in both directions
BidiPairs == BidiPairsOf(Schema)

OppTab == OppTabOf(Schema)
Opp(v, l, w) == OppTab[v][l][w]    \* the fields of a node of variant w that are opposite to v.l

\* variants a link may point to: every annotation that covers the link must be met
AllowTab == AllowTabOf(Schema)
Allowed(v, l) == AllowTab[v][l]

ASSUME NamesOK(Schema)
ASSUME Orderless(Schema)

\* every link has at most one possible opposite in each variant
OneToOne == \A v \in Variants, w \in Variants : \A l \in Links(v) : 
               /\ Cardinality(Opp(v, l, w)) <= 1
               /\ \A l2 \in Links(v) \ {l} : Opp(v, l, w) \cap Opp(v, l2, w) = {}

-----------------------------------------------------------------------------
(* Nodes and links *)

Targets(n) == UNION {{p[2] : p \in n.f[l]} : l \in DOMAIN n.f} \ {0}
AllTargets(G) == UNION {Targets(G[x]) : x \in DOMAIN G}

\* pairs of one field after replacing indices by R (a function on some indices)
SubstPairs(ps, R) == {<<p[1], IF p[2] \in DOMAIN R THEN R[p[2]] ELSE p[2]>> : p \in ps} \ {<<0, 0>>}
SubstNode(n, R) ==
  IF Targets(n) \cap DOMAIN R = {} THEN n
  ELSE [n EXCEPT !.f = [l \in DOMAIN n.f |-> SubstPairs(n.f[l], R)]]
Subst(G, R) == IF R = EmptyFn THEN G ELSE [x \in DOMAIN G |-> SubstNode(G[x], R)]

\* The editing steps a user closure can take on a node
ApplyEdit(n, e) ==
  CASE e.op = "put"    -> [n EXCEPT !.f[e.l] = Range(e.ps)]
    [] e.op = "ins"    -> IF Kind(n.v, e.l) = "vec"
                          THEN [n EXCEPT !.f[e.l] = @ \cup {<<Cardinality(@) + 1, e.y>>}]
                          ELSE IF Kind(n.v, e.l) = "dir" THEN [n EXCEPT !.f[e.l] = {<<0, e.y>>}]
                          ELSE [n EXCEPT !.f[e.l] = @ \cup {<<0, e.y>>}]
    [] e.op = "rem"    -> [n EXCEPT !.f[e.l] = @ \ {<<0, e.y>>}]
    [] e.op = "data"   -> [n EXCEPT !.d[2] = e.d]
    [] e.op = "become" -> e.n

RECURSIVE ApplyEdits(_, _)
ApplyEdits(n, es) == IF es = <<>> THEN n ELSE ApplyEdits(ApplyEdit(n, Head(es)), Tail(es))

\* A closure written for one variant (mut_node!, update_node!) panics on another one
Fits(n, m) == m.want = "" \/ m.want = n.v

-----------------------------------------------------------------------------
(* The phases of a commit.  A failed phase yields ok = FALSE (the call panics). *)

Good(G) == [ok |-> TRUE, G |-> G]
Bad == [ok |-> FALSE, G |-> EmptyFn]

\* Redirection: requests are pairs <<old, new>> with distinct old
RECURSIVE Steps(_, _, _)
Steps(m, x, k) == IF k = 0 \/ x \notin DOMAIN m THEN x ELSE Steps(m, m[x], k - 1)
RedirMap(reqs) == [o \in {reqs[i][1] : i \in DOMAIN reqs} |->
                     reqs[CHOOSE i \in DOMAIN reqs : reqs[i][1] = o][2]]
Redirect(G, reqs) ==
  IF reqs = <<>> THEN Good(G)
  ELSE LET m == RedirMap(reqs)
           end == [o \in DOMAIN m |-> Steps(m, o, Cardinality(DOMAIN m) + 1)]
       IN IF \E o \in DOMAIN m : end[o] \in DOMAIN m THEN Bad   \* a cycle
          ELSE Good(Subst(G, end))

RECURSIVE RunClosures(_, _)
RunClosures(G, ms) ==
  IF ms = <<>> THEN Good(G)
  ELSE LET m == Head(ms) IN
       IF m.id \notin DOMAIN G \/ ~Fits(G[m.id], m) THEN Bad
       ELSE RunClosures([G EXCEPT ![m.id] = ApplyEdits(@, m.es)], Tail(ms))

RemoveNodes(G, dec) ==
  IF dec = {} THEN Good(G)
  ELSE IF ~(dec \subseteq DOMAIN G) THEN Bad
  ELSE Good(Subst(Without(G, dec), [x \in dec |-> 0]))

\* Links as tuples <<holder, holder's variant, field, target>>; occurrences matter in vectors
LinksOf(G, X) == UNION {UNION {{<<x, G[x].v, l, p[2]>> : p \in G[x].f[l]} : l \in DOMAIN G[x].f} : x \in X}
Occ(G, t) == IF t[1] \in DOMAIN G /\ G[t[1]].v = t[2]
             THEN Cardinality({p \in G[t[1]].f[t[3]] : p[2] = t[4]}) ELSE 0
ChangedIds(G0, G1) == {x \in DOMAIN G0 \cup DOMAIN G1 :
                         ~(x \in DOMAIN G0 /\ x \in DOMAIN G1 /\ G0[x] = G1[x])}
Candidates(G0, G1) == LET X == ChangedIds(G0, G1) IN
  {t \in LinksOf(G0, X \cap DOMAIN G0) \cup LinksOf(G1, X \cap DOMAIN G1) : t[4] # 0}
Added(G0, G1)   == {t \in Candidates(G0, G1) : Occ(G1, t) > Occ(G0, t)}
Removed(G0, G1) == {t \in Candidates(G0, G1) : Occ(G1, t) < Occ(G0, t)}

\* Bidirectional maintenance, first the removed links ...
BidiRemove(G, rem) ==
  LET todo == UNION {{<<t[4], o, t[1]>> : o \in Opp(t[2], t[3], G[t[4]].v)}
                     : t \in {r \in rem : r[1] \in DOMAIN G /\ r[4] \in DOMAIN G}}
  IN IF todo = {} THEN G
     ELSE [y \in DOMAIN G |->
             IF \A q \in todo : q[1] # y THEN G[y]
             ELSE [G[y] EXCEPT !.f = [l \in DOMAIN G[y].f |->
                     G[y].f[l] \ {<<0, q[3]>> : q \in {r \in todo : r[1] = y /\ r[2] = l}}]]]

\* ... then the added ones
Holds(n, l, y) == \E p \in n.f[l] : p[2] = y
BidiAdd(G, add) ==
  LET live == {t \in add : t[1] \in DOMAIN G /\ t[4] \in DOMAIN G}
      lack == {t \in live : LET o == Opp(t[2], t[3], G[t[4]].v) IN
                            o # {} /\ \A l \in o : ~Holds(G[t[4]], l, t[1])}
      todo == UNION {{<<t[4], o, t[1]>> : o \in Opp(t[2], t[3], G[t[4]].v)} : t \in lack}
      ambiguous == \E t \in lack : Cardinality(Opp(t[2], t[3], G[t[4]].v)) > 1
      conflict == \E q \in todo : /\ Kind(G[q[1]].v, q[2]) = "dir"
                                  /\ \/ G[q[1]].f[q[2]] # {}
                                     \/ \E r \in todo : r[1] = q[1] /\ r[2] = q[2] /\ r[3] # q[3]
  IN IF lack = {} THEN Good(G)
     ELSE IF ambiguous \/ conflict THEN Bad
     ELSE Good([y \in DOMAIN G |->
             IF \A q \in todo : q[1] # y THEN G[y]
             ELSE [G[y] EXCEPT !.f = [l \in DOMAIN G[y].f |->
                     G[y].f[l] \cup {<<0, q[3]>> : q \in {r \in todo : r[1] = y /\ r[2] = l}}]]])

Bidi(G0, G) ==
  IF BidiPairs = {} THEN Good(G)
  ELSE LET G1 == BidiRemove(G, Removed(G0, G))
       IN BidiAdd(G1, {t \in Added(G0, G) : Occ(G1, t) > 0})

TypesOK(G0, G) ==
  \A t \in Added(G0, G) : t[4] \in DOMAIN G => G[t[4]].v \in Allowed(t[2], t[3])

\* What is done to a set of nodes that enters a graph, or to the result of all other phases
Settle(G0, G, types) ==
  LET b == Bidi(G0, G) IN
  IF ~b.ok THEN Bad
  ELSE IF types /\ ~TypesOK(G0, b.G) THEN Bad
  ELSE b

CommitEffect(G0, tx) ==
  LET p1 == Redirect(G0, tx.rl)
      p2 == tx.inc @@ p1.G
      p3 == RunClosures(p2, tx.muts)
      p4 == RunClosures(p3.G, tx.upds)
      p5 == Redirect(p4.G, tx.ra)
      p6 == RemoveNodes(p5.G, tx.dec)
  IN IF ~p1.ok THEN Bad ELSE IF ~p3.ok THEN Bad ELSE IF ~p4.ok THEN Bad
     ELSE IF ~p5.ok THEN Bad ELSE IF ~p6.ok THEN Bad
     ELSE Settle(G0, p6.G, TypeChecks)

\* The order in which a commit runs the closures of a transaction
ClosureOrder(tx) == LET ms == tx.muts \o tx.upds IN [i \in DOMAIN ms |-> ms[i].k]

Accepts(gr, tx) == gr.uuid = tx.uuid /\ DOMAIN tx.alloc = {}

-----------------------------------------------------------------------------
(* Actions: one per public call.  "res" is the outcome of the call. *)

Init == ctxs = EmptyFn /\ dists = EmptyFn /\ graphs = EmptyFn /\ txns = EmptyFn

Fresh(dist, ids) == 0 \notin ids /\ ids \cap dists[dist] = {}
Issue(dist, ids) == Fresh(dist, ids) /\ dists' = [dists EXCEPT ![dist] = @ \cup ids]

NewCtx(c) ==
  /\ c \notin DOMAIN ctxs
  /\ ctxs' = (c :> [uuid |-> c, dist |-> c]) @@ ctxs
  /\ dists' = (c :> {}) @@ dists
  /\ UNCHANGED <<graphs, txns>>

CloneCtx(c, of) ==
  /\ c \notin DOMAIN ctxs /\ of \in DOMAIN ctxs
  /\ ctxs' = (c :> ctxs[of]) @@ ctxs
  /\ UNCHANGED <<dists, graphs, txns>>

NewGraph(g, c) ==
  /\ g \notin DOMAIN graphs
  /\ graphs' = (g :> [uuid |-> ctxs[c].uuid, nodes |-> EmptyFn]) @@ graphs
  /\ UNCHANGED <<ctxs, dists, txns>>

EmptyTxn(c) == [uuid |-> ctxs[c].uuid, dist |-> ctxs[c].dist, alloc |-> EmptyFn, inc |-> EmptyFn,
                dec |-> {}, muts |-> <<>>, upds |-> <<>>, rl |-> <<>>, ra |-> <<>>]
NewTxn(t, c) ==
  /\ t \notin DOMAIN txns
  /\ txns' = (t :> EmptyTxn(c)) @@ txns
  /\ UNCHANGED <<ctxs, dists, graphs>>

Insert(t, id, n) ==
  /\ Issue(txns[t].dist, {id})
  /\ txns' = [txns EXCEPT ![t].inc = (id :> n) @@ @]
  /\ UNCHANGED <<ctxs, graphs>>

\* ns: function index -> node
Extend(t, ns) ==
  /\ Issue(txns[t].dist, DOMAIN ns)
  /\ txns' = [txns EXCEPT ![t].inc = ns @@ @]
  /\ UNCHANGED <<ctxs, graphs>>

\* v = "?" for an untyped allocation
Alloc(t, id, v) ==
  /\ Issue(txns[t].dist, {id})
  /\ txns' = [txns EXCEPT ![t].alloc = (id :> v) @@ @]
  /\ UNCHANGED <<ctxs, graphs>>

\* A panic in the middle of building leaves the transaction unspecified (so: gone).
\* Filling a typed allocation through the untyped call with another variant is not specified.
DoFill(t, id, n, okvs, res) ==
  LET tx == txns[t]
      good == id \in DOMAIN tx.alloc /\ tx.alloc[id] \in okvs
  IN /\ res = (IF good THEN "ok" ELSE "panic")
     /\ txns' = IF good THEN [txns EXCEPT ![t].alloc = Without(@, {id}), ![t].inc = (id :> n) @@ @]
                ELSE Without(txns, {t})
     /\ UNCHANGED <<ctxs, dists, graphs>>
Fill(t, id, n, res) == DoFill(t, id, n, {n.v}, res)
FillUntyped(t, id, n, res) == DoFill(t, id, n, {"?", n.v}, res)

Remove(t, id) ==
  /\ LET tx == txns[t] IN
     txns' = IF id \in DOMAIN tx.inc THEN [txns EXCEPT ![t].inc = Without(@, {id})]
             ELSE IF id \in DOMAIN tx.alloc THEN [txns EXCEPT ![t].alloc = Without(@, {id})]
             ELSE [txns EXCEPT ![t].dec = @ \cup {id}]
  /\ UNCHANGED <<ctxs, dists, graphs>>

\* m = [id, es, want]; on the transaction's own nodes the closure runs at once
Mutate(t, m, res) ==
  /\ LET tx == txns[t] IN
     IF m.id \in DOMAIN tx.inc
     THEN IF Fits(tx.inc[m.id], m)
          THEN res = "ok" /\ txns' = [txns EXCEPT ![t].inc[m.id] = ApplyEdits(@, m.es)]
          ELSE res = "panic" /\ txns' = Without(txns, {t})
     ELSE res = "ok" /\ txns' = [txns EXCEPT ![t].muts = Append(@, m)]
  /\ UNCHANGED <<ctxs, dists, graphs>>

Update(t, m, res) ==
  /\ LET tx == txns[t] IN
     IF m.id \in DOMAIN tx.inc
     THEN IF Fits(tx.inc[m.id], m)
          THEN res = "ok" /\ txns' = [txns EXCEPT ![t].inc[m.id] = ApplyEdits(@, m.es)]
          ELSE res = "panic" /\ txns' = Without(txns, {t})
     ELSE res = "ok" /\ txns' = [txns EXCEPT ![t].upds = Append(@, m)]
  /\ UNCHANGED <<ctxs, dists, graphs>>

RedirectLinks(t, a, b) ==
  /\ txns' = [txns EXCEPT ![t].rl = Append(@, <<a, b>>)]
  /\ UNCHANGED <<ctxs, dists, graphs>>
RedirectAll(t, a, b) ==
  /\ txns' = [txns EXCEPT ![t].ra = Append(@, <<a, b>>)]
  /\ UNCHANGED <<ctxs, dists, graphs>>

\* the graph is moved into the call, so it is gone either way
Merge(t, g, res) ==
  /\ LET same == txns[t].uuid = graphs[g].uuid IN
     /\ res = (IF same THEN "ok" ELSE "panic")
     /\ txns' = IF same THEN [txns EXCEPT ![t].inc = graphs[g].nodes @@ @] ELSE txns
  /\ graphs' = Without(graphs, {g})
  /\ UNCHANGED <<ctxs, dists>>

GiveUp(t) == txns' = Without(txns, {t}) /\ UNCHANGED <<ctxs, dists, graphs>>

DropGraph(g) == graphs' = Without(graphs, {g}) /\ UNCHANGED <<ctxs, dists, txns>>

TxnEmpty(tx) == /\ tx.alloc = EmptyFn /\ tx.inc = EmptyFn /\ tx.dec = {} /\ tx.muts = <<>>
                /\ tx.upds = <<>> /\ tx.rl = <<>> /\ tx.ra = <<>>

\* A refused commit leaves the graph alone; any other panic leaves it unspecified (so: gone)
Commit(g, t, res) ==
  /\ LET gr == graphs[g]  tx == txns[t] IN
     IF ~Accepts(gr, tx) THEN res = "refused" /\ graphs' = graphs
     ELSE LET e == CommitEffect(gr.nodes, tx) IN
          IF e.ok THEN res = "ok" /\ graphs' = [graphs EXCEPT ![g].nodes = e.G]
          ELSE res = "panic" /\ graphs' = Without(graphs, {g})
  /\ txns' = Without(txns, {t})
  /\ UNCHANGED <<ctxs, dists>>

\* The observable outcome: a refusal is a panic too
Seen(res) == IF res = "refused" THEN "panic" ELSE res

\* What a checked commit from G0 to G1 must and may show to the registered checks.
\* Presence decides what must be shown, occurrences in vectors what may be shown.
MustNodes(G0, G1) == ChangedIds(G0, G1) \cap DOMAIN G1
MayNodes(G0, G1, tx) == MustNodes(G0, G1)
      \cup (({tx.muts[i].id : i \in DOMAIN tx.muts} \cup {tx.upds[i].id : i \in DOMAIN tx.upds}
             \cup DOMAIN tx.inc) \cap DOMAIN G1)
Pairs(ts) == {<<t[1], t[4]>> : t \in ts}
MustAdd(G0, G1) == Pairs({t \in Added(G0, G1) : Occ(G0, t) = 0})
MayAdd(G0, G1)  == Pairs(Added(G0, G1))
MustRem(G0, G1) == Pairs({t \in Removed(G0, G1) : Occ(G1, t) = 0 /\ t[1] \in DOMAIN G1})
MayRem(G0, G1)  == Pairs({t \in Removed(G0, G1) : t[1] \in DOMAIN G1})

\* map: function old index -> new index, one-to-one onto fresh indices of the new context
Relabel(G, map) ==
  LET R == [y \in AllTargets(G) |-> IF y \in DOMAIN map THEN map[y] ELSE 0]
      H == Subst(G, R)
      back == [z \in {map[x] : x \in DOMAIN map} |-> CHOOSE x \in DOMAIN map : map[x] = z]
  IN [z \in DOMAIN back |-> H[back[z]]]
SwitchCtx(g, c, g2, map, res) ==
  /\ g2 \notin DOMAIN graphs
  /\ LET e == Settle(EmptyFn, Relabel(graphs[g].nodes, map), TypeChecks) IN
     /\ DOMAIN map = DOMAIN graphs[g].nodes
     /\ Cardinality({map[x] : x \in DOMAIN map}) = Cardinality(DOMAIN map)
     /\ IF e.ok
        THEN /\ res = "ok"
             /\ Issue(ctxs[c].dist, {map[x] : x \in DOMAIN map})
             /\ graphs' = (g2 :> [uuid |-> ctxs[c].uuid, nodes |-> e.G]) @@ Without(graphs, {g})
        ELSE /\ res = "panic"
             /\ graphs' = Without(graphs, {g}) /\ UNCHANGED dists
  /\ UNCHANGED <<ctxs, txns>>

\* Round trip: a new graph, and a new context that is compatible with it
Serde(g, g2, c2, keep, res) ==
  /\ g2 \notin DOMAIN graphs /\ c2 \notin DOMAIN ctxs
  /\ LET gr == graphs[g]
         e == Settle(EmptyFn, gr.nodes, FALSE)
         rest == IF keep THEN graphs ELSE Without(graphs, {g})
     IN IF e.ok
        THEN /\ res = "ok"
             /\ graphs' = (g2 :> [uuid |-> gr.uuid, nodes |-> e.G]) @@ rest
             /\ ctxs' = (c2 :> [uuid |-> gr.uuid, dist |-> c2]) @@ ctxs
             /\ dists' = (c2 :> (DOMAIN e.G \cup AllTargets(e.G))) @@ dists
        ELSE /\ res = "panic" /\ graphs' = rest /\ UNCHANGED <<ctxs, dists>>
  /\ UNCHANGED txns

-----------------------------------------------------------------------------
(* Observations of a node by name and group (reflection) *)

Bag(s) == [y \in Range(s) |-> Cardinality({i \in DOMAIN s : s[i] = y})]
\* how often index y is linked in the fields F of node n
OccIn(n, F, y) == Cardinality(UNION {{<<l, p[1]>> : p \in {q \in n.f[l] : q[2] = y}} : l \in F})
LinkBag(n, F) == LET T == UNION {{p[2] : p \in n.f[l]} : l \in F} \ {0} IN [y \in T |-> OccIn(n, F, y)]
InVGroup(v, grp) == grp \in VGroups /\ v \in Range(Schema.vgroups[grp])

-----------------------------------------------------------------------------
(* Properties *)

Live == DOMAIN graphs
Nodes(g) == graphs[g].nodes

\* C03: whatever is in a graph or a transaction was handed out, and is not empty
IndicesIssued ==
  /\ \A t \in DOMAIN txns : \A x \in DOMAIN txns[t].inc \cup DOMAIN txns[t].alloc : x # 0
  /\ \A g \in Live : 0 \notin DOMAIN Nodes(g)
  /\ \A d \in DOMAIN dists : 0 \notin dists[d]

\* structure of nodes
WellFormed(n) ==
  /\ n.v \in Variants /\ DOMAIN n.f = Links(n.v)
  /\ \A l \in Links(n.v) :
       CASE Kind(n.v, l) = "dir" -> Cardinality(n.f[l]) <= 1 /\ \A p \in n.f[l] : p[1] = 0 /\ p[2] # 0
         [] Kind(n.v, l) = "set" -> \A p \in n.f[l] : p[1] = 0 /\ p[2] # 0
         [] Kind(n.v, l) = "vec" -> {p[1] : p \in n.f[l]} = 1..Cardinality(n.f[l])
AllWellFormed == \A g \in Live : \A x \in DOMAIN Nodes(g) : WellFormed(Nodes(g)[x])

\* C06/C08: nothing links outside the graph (holds as long as nobody asks for such a link)
Closed(G) == AllTargets(G) \subseteq DOMAIN G
AllClosed == \A g \in Live : Closed(Nodes(g))

\* C09: full symmetry of declared pairs (one-to-one schemas, closed graphs)
Symmetric(G) == \A t \in LinksOf(G, DOMAIN G) : t[4] \in DOMAIN G =>
   LET o == Opp(t[2], t[3], G[t[4]].v) IN o = {} \/ \E l \in o : Holds(G[t[4]], l, t[1])
AllSymmetric == OneToOne => \A g \in Live : Symmetric(Nodes(g))

\* C11: declared link types
Typed(G) == \A t \in LinksOf(G, DOMAIN G) : t[4] \in DOMAIN G => G[t[4]].v \in Allowed(t[2], t[3])
AllTyped == TypeChecks => \A g \in Live : Typed(Nodes(g))
=============================================================================
