-------------------------------- MODULE Decl --------------------------------
(***************************************************************************)
(* Every small declaration over three node types, written statement by     *)
(* statement, with the verdict (accepted or rejected at compile time) and, *)
(* for accepted ones, what linking one node to another does under it.      *)
(* The declarations are compiled and run against the real macros.          *)
(***************************************************************************)
EXTENDS Declare, TLC, Json, IOUtils, SequencesExt

Bounds == JsonDeserialize(IOEnv.TT_DECL)    \* [sites |-> <<...>>, tables |-> BOOLEAN]

\* The node types.  "pay" is data, not a link.
Types ==
  [A |-> [links |-> [one |-> [k |-> "dir", groups |-> <<"g", "h">>], many |-> [k |-> "set", groups |-> <<"g">>]], phantom |-> <<>>],
   B |-> [links |-> [one |-> [k |-> "dir", groups |-> <<"g">>], two |-> [k |-> "set", groups |-> <<"h">>],
                     seq |-> [k |-> "vec", groups |-> <<"k">>]], phantom |-> <<>>],
   C |-> [links |-> [x \in {} |-> 0], phantom |-> <<"g", "h">>]]
VarNames == {"A", "B", "C", "w", "Nope"}
Groups == {<<"A", "B">>, <<"C", "A">>, <<"A", "B", "C">>}

VARIABLES decl, site
vars == <<decl, site>>

Plain(ms) == [variants |-> Types, vgroups |-> [w |-> ms], bidi |-> <<>>, ltypes |-> <<>>, form |-> "plain"]
\* ways of writing the rest of it: the accepted ones and those the documentation rules out
\* ("keywords": variants called Fn, Type, Match; "generic": a node type with a parameter; "parts": a group in several parts)
Forms == {"plain", "private", "documented", "split", "keywords", "generic", "parts", "twin"}
BadForms == {"unit variant", "two types", "named field", "group on data", "unknown block", "enum last", "struct", "no link separator", "nested link group"}
On(x) == x \in Range(Bounds.sites)

\* one bidirectional statement, sides in one order: the other order is a declaration of its own only where it matters
SideLinks == {"one", "many", "two", "g", "h", "pay", "nope"}
Sides == VarNames \X SideLinks
GoodSides == {s \in {"A", "B", "C", "w"} \X (SideLinks \ {"pay", "nope"}) : KnownSide(Plain(<<"A", "B">>), s[1], s[2])}
TypeLinks == SideLinks \cup {"seq", "k"}
Targets == {<<>>} \cup {<<a>> : a \in VarNames} \cup {<<a, b>> : a \in VarNames, b \in VarNames}

Bidi(ms, s, t) == [Plain(ms) EXCEPT !.bidi = <<s \o t>>]
TypeOf(ms, v, l, ts) == [Plain(ms) EXCEPT !.ltypes = <<<<v, l, ts>>>>]

\* "twin": two variants of one node type
Twins == [Plain(<<"A", "D">>) EXCEPT !.variants = @ @@ [D |-> Types["A"]], !.form = "twin"]
TwinSides == {"A", "D", "w"} \X {"one", "many", "g", "h"}

Init ==
  \/ On("bidi") /\ site = "bidi" /\ \E s \in Sides, t \in Sides : decl = Bidi(<<"A", "B">>, s, t)
  \/ On("bidigroups") /\ site = "bidi" /\ \E ms \in Groups \ {<<"A", "B">>} : \E s \in Sides, t \in Sides :
       (s[1] = "w" \/ t[1] = "w") /\ decl = Bidi(ms, s, t)
  \/ On("types") /\ site = "types" /\ \E v \in VarNames, l \in TypeLinks, ts \in Targets : decl = TypeOf(<<"A", "B">>, v, l, ts)
  \/ On("group") /\ site = "group" /\ \E ms \in {<<>>} \cup {<<a>> : a \in VarNames \cup {"one"}} \cup {<<a, b>> : a \in VarNames, b \in VarNames} :
       \/ decl = Plain(ms)
       \/ decl = TypeOf(ms, "A", "one", <<"w">>)
       \/ decl = TypeOf(ms, "w", "g", <<"A">>)
  \/ On("forms") /\ site = "forms" /\ \E fm \in (Forms \ {"twin"}) \cup BadForms :
       \E d \in {Plain(<<"A", "B">>), Bidi(<<"A", "B">>, <<"w", "g">>, <<"w", "g">>), TypeOf(<<"A", "B">>, "w", "g", <<"w">>)} : decl = [d EXCEPT !.form = fm]

  \/ On("twin") /\ site = "twin" /\ \E s \in TwinSides :
       \/ \E t \in TwinSides : decl = [Twins EXCEPT !.bidi = <<s \o t>>]
       \/ \E ts \in {"A", "B", "D", "w"} : decl = [Twins EXCEPT !.ltypes = <<s \o <<<<ts>>>>>>]

\* statements come one after the other
AddBidi == /\ On("bidi2") /\ site = "bidi" /\ (NamesOK(decl) /\ Orderless(decl)) = TRUE /\ Len(decl.bidi) = 1
           /\ \E s \in GoodSides, t \in GoodSides : decl' = [decl EXCEPT !.bidi = Append(@, s \o t)]
           /\ UNCHANGED site
AddType == /\ On("types2") /\ site = "types" /\ Len(decl.ltypes) = 1
           /\ decl.ltypes[1][1] \in {"A", "w"} /\ decl.ltypes[1][2] \in {"one", "g"} /\ Len(decl.ltypes[1][3]) = 1
           /\ \E v \in {"A", "w"}, l \in {"one", "g"}, x \in {"A", "B", "w", "Nope"} : decl' = [decl EXCEPT !.ltypes = Append(@, <<v, l, <<x>>>>)]
           /\ UNCHANGED site
Next == AddBidi \/ AddType
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What a declaration does: x.l is set to y in a graph with one node x of   *)
(* variant v and one node y of variant w (or x itself), then cleared again. *)

Linked(S, opp, allow, v, l, w, self) ==
  LET fields == opp[v][l][w]
      there == self /\ l \in fields      \* the link is its own opposite
      added == IF there \/ fields = {} THEN {} ELSE fields
      ok == /\ Cardinality(added) <= 1
            /\ w \in allow[v][l]
            /\ \A o \in added : v \in allow[w][o]
  IN IF ok THEN added ELSE {"panic"}

Table(S) ==
  LET opp == OppTabOf(S)
      allow == AllowTabOf(S)
  IN UNION {UNION {UNION {{<<v, l, w, "other", Linked(S, opp, allow, v, l, w, FALSE)>>}
                          \cup (IF v = w THEN {<<v, l, w, "self", Linked(S, opp, allow, v, l, w, TRUE)>>} ELSE {})
                         : w \in DOMAIN S.variants} : l \in LinksIn(S, v)} : v \in DOMAIN S.variants}

Verdict == NamesOK(decl) /\ decl.form \in Forms
\* excluded: what a well-formed but order-dependent or vector declaration does is not specified
Emit ==
  IF ~Verdict THEN PrintT(ToJson([d |-> [vgroups |-> decl.vgroups, bidi |-> decl.bidi, ltypes |-> decl.ltypes, form |-> decl.form], site |-> site, ok |-> FALSE, table |-> {}]))
  ELSE IF Orderless(decl) THEN PrintT(ToJson([d |-> [vgroups |-> decl.vgroups, bidi |-> decl.bidi, ltypes |-> decl.ltypes, form |-> decl.form], site |-> site, ok |-> TRUE,
                                              table |-> IF Bounds.tables THEN Table(decl) ELSE {}]))
  ELSE TRUE

-----------------------------------------------------------------------------
(* Properties of the meaning of declarations, checked on all of them *)

\* writing a declaration out by hand changes nothing
Written(S) ==
  LET ps == BidiPairsOf(S) IN
  [S EXCEPT !.vgroups = [x \in {} |-> 0], !.bidi = SetToSeq(ps)]
SameAsWritten == Verdict => BidiPairsOf(Written(decl)) = BidiPairsOf(decl)
OppSymmetric == Verdict => LET o == OppTabOf(decl) IN
  \A v \in DOMAIN decl.variants, w \in DOMAIN decl.variants : \A l \in LinksIn(decl, v), m \in LinksIn(decl, w) : (m \in o[v][l][w]) = (l \in o[w][m][v])
\* one more type statement never allows more
NarrowTypes == (Verdict /\ Len(decl.ltypes) = 2) =>
  LET a == AllowTabOf(decl) b == AllowTabOf([decl EXCEPT !.ltypes = SubSeq(@, 1, 1)]) IN
  \A v \in DOMAIN decl.variants : \A l \in LinksIn(decl, v) : a[v][l] \subseteq b[v][l]
=============================================================================
