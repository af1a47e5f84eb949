------------------------------- MODULE Agree -------------------------------
(***************************************************************************)
(* Two logs of the same operations, taken from two programs that have to   *)
(* behave alike: two declarations that mean the same (C12), or two build   *)
(* configurations (C19).  Event by event the logs are equal, except that   *)
(*  - where only one side has the link type checks, a commit or a switch   *)
(*    may fail on that side only; later events are then not comparable;    *)
(*  - check_integrity only complains where assertions are on;              *)
(*  - the order in which switch_context hands out indices is free.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT SameChecks     \* both sides have the same checks

A == ndJsonDeserialize(IOEnv.TT_A)
B == ndJsonDeserialize(IOEnv.TT_B)

VARIABLES h, l

Free(a, b) ==
  \/ a.e \in {"Commit", "Switch"} /\ "res" \in DOMAIN a /\ "res" \in DOMAIN b /\ a.res = "panic" /\ b.res = "ok" /\ ~SameChecks
  \/ a.e = "Switch" /\ b.e = "Switch" /\ a.map # b.map
\* the index of an extended node is only known after a successful commit
SameExt(x, y) == Len(x) = Len(y) /\ \A i \in DOMAIN x : x[i][2] = y[i][2] /\ (x[i][1] = y[i][1] \/ x[i][1] < 0 \/ y[i][1] < 0)
Same(a, b) == IF a.e = "Extend" THEN a.t = b.t /\ SameExt(a.ns, b.ns) ELSE IF a.e = "Integrity" THEN ~SameChecks \/ a.res = b.res ELSE a = b

Init == h \in DOMAIN A /\ l = 1
Next ==
  IF l > Len(A[h].evs) \/ l > Len(B[h].evs) THEN UNCHANGED <<h, l>>
  ELSE LET a == A[h].evs[l]  b == B[h].evs[l] IN
       IF a.e = b.e /\ Free(a, b) THEN l' = Len(A[h].evs) + 1 /\ h' = h
       ELSE IF a.e = b.e /\ Same(a, b) THEN l' = l + 1 /\ h' = h
       ELSE PrintT(<<"REJECT", h, l, "the two sides differ", [a |-> a, b |-> b]>>) /\ FALSE
Spec == Init /\ [][Next]_<<h, l>>
SameNumber == Len(A) = Len(B)
Where == [h |-> h, l |-> l]
=============================================================================
