------------------------------ MODULE Declare -------------------------------
(***************************************************************************)
(* What a declaration means: which names it may use, and what its groups   *)
(* stand for.  A declaration is                                            *)
(*   [variants |-> [V |-> [links |-> [L |-> [k, groups]], phantom]],       *)
(*    vgroups  |-> [G |-> <<V, ...>>],                                     *)
(*    bidi     |-> <<  <<v1, l1, v2, l2>>, ... >>,                         *)
(*    ltypes   |-> <<  <<v, l, <<target, ...>>>>, ... >>]                  *)
(* where a variant may be written as the name of a variant group, and a    *)
(* link as the name of a link group.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == {s[i] : i \in DOMAIN s}

LinksIn(S, v) == DOMAIN S.variants[v].links
GroupsIn(S, v, l) == Range(S.variants[v].links[l].groups)
\* phantom groups are groups without links
LinkGroupsIn(S, v) == UNION {GroupsIn(S, v, l) : l \in LinksIn(S, v)} \cup Range(S.variants[v].phantom)

ExpandVIn(S, name) == IF name \in DOMAIN S.vgroups THEN Range(S.vgroups[name]) ELSE {name}
ExpandLIn(S, v, name) == IF name \in LinksIn(S, v) THEN {name} ELSE {l \in LinksIn(S, v) : name \in GroupsIn(S, v, l)}

-----------------------------------------------------------------------------
(* Names *)

KnownVar(S, name) == name \in DOMAIN S.variants \cup DOMAIN S.vgroups
\* the name has to mean something in every variant it is looked up in
KnownSide(S, v, l) ==
  /\ KnownVar(S, v)
  /\ \A w \in ExpandVIn(S, v) : l \in LinksIn(S, w) \cup LinkGroupsIn(S, w)

NamesOK(S) ==
  /\ \A g \in DOMAIN S.vgroups : Range(S.vgroups[g]) \subseteq DOMAIN S.variants
  /\ \A i \in DOMAIN S.bidi : KnownSide(S, S.bidi[i][1], S.bidi[i][2]) /\ KnownSide(S, S.bidi[i][3], S.bidi[i][4])
  /\ \A i \in DOMAIN S.ltypes : /\ KnownSide(S, S.ltypes[i][1], S.ltypes[i][2])
                                /\ \A j \in DOMAIN S.ltypes[i][3] : KnownVar(S, S.ltypes[i][3][j])

-----------------------------------------------------------------------------
(* Meaning, of a well-formed declaration *)

BidiPairsOf(S) ==
  UNION { LET d == S.bidi[i] IN
          UNION { UNION { {<<v1, l1, v2, l2>> : l1 \in ExpandLIn(S, v1, d[2]), l2 \in ExpandLIn(S, v2, d[4])}
                          \cup {<<v2, l2, v1, l1>> : l1 \in ExpandLIn(S, v1, d[2]), l2 \in ExpandLIn(S, v2, d[4])}
                        : v2 \in ExpandVIn(S, d[3]) } : v1 \in ExpandVIn(S, d[1]) }
        : i \in DOMAIN S.bidi }

OppTabOf(S) ==
  LET ps == BidiPairsOf(S) IN
  [v \in DOMAIN S.variants |-> [l \in LinksIn(S, v) |-> [w \in DOMAIN S.variants |->
     {p[4] : p \in {q \in ps : q[1] = v /\ q[2] = l /\ q[3] = w}}]]]

\* variants a link may point to: every annotation that covers the link must be met
AllowTabOf(S) ==
  [v \in DOMAIN S.variants |-> [l \in LinksIn(S, v) |->
    {w \in DOMAIN S.variants : \A i \in DOMAIN S.ltypes :
       LET a == S.ltypes[i] IN
       (v \in ExpandVIn(S, a[1]) /\ l \in ExpandLIn(S, v, a[2]))
          => w \in UNION {ExpandVIn(S, a[3][j]) : j \in DOMAIN a[3]}}]]

\* The order in which newly added links are mirrored does not matter for these declarations:
\* the opposites of two fields in one variant are equal or disjoint, never vectors.
Orderless(S) ==
  LET opp == OppTabOf(S) IN
  /\ \A v \in DOMAIN S.variants, w \in DOMAIN S.variants : \A l1 \in LinksIn(S, v), l2 \in LinksIn(S, v) :
       opp[v][l1][w] = opp[v][l2][w] \/ opp[v][l1][w] \cap opp[v][l2][w] = {}
  /\ \A p \in BidiPairsOf(S) : S.variants[p[1]].links[p[2]].k # "vec" /\ S.variants[p[3]].links[p[4]].k # "vec"
=============================================================================
