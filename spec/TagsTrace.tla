------------------------------- MODULE TagsTrace -------------------------------
(***************************************************************************)
(* Edits by the real code.  A case:                                        *)
(*  [kind: tags/rm/distrust, how: spec/ids, t (tokens), ids, op, before,   *)
(*   after, scheduled, manual, locked, ok]                                 *)
(***************************************************************************)
EXTENDS Tags, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
VARIABLES t, i
Hist(h) == [j \in 1..Len(h) |-> [h[j] EXCEPT !.tags = Elem(@)]]
Op(o) == [o EXCEPT !.tags = Elem(@), !.expect = Elem(@)]
Want(c, H) ==
  CASE c.locked -> [ok |-> FALSE, h |-> H]
    [] c.kind = "tags" -> Edit(H, c.t, Op(c.op), Elem(c.scheduled), Elem(c.manual))
    [] c.kind = "rm" /\ c.how = "spec" -> Rm(H, c.t)
    [] c.kind = "distrust" /\ c.how = "spec" -> Distrust(H, c.t)
    [] c.kind = "rm" -> [ok |-> TRUE, h |-> RmAt(H, At(H, Elem(c.ids)))]
    [] c.kind = "distrust" ->
         LET q == At(H, Elem(c.ids)) IN
         IF \E j \in Elem(q) : H[j].server # "" THEN [ok |-> FALSE, h |-> H] ELSE [ok |-> TRUE, h |-> DistrustAt(H, q)]
Same(a, b) == a = b
Bad(c) ==
  LET H == Hist(c.before) A == Hist(c.after) w == Want(c, H) IN
  IF A = w.h THEN IF c.ok = w.ok THEN {} ELSE {"wrong-outcome-reported"}
  ELSE (IF ~w.ok THEN {IF c.locked THEN "locked-but-changed" ELSE "refused-but-changed"}
        ELSE (IF {A[j].u : j \in DOMAIN A} # {w.h[j].u : j \in DOMAIN w.h} THEN {"wrong-revisions-removed"} ELSE {})
             \cup (IF \E j \in DOMAIN A, k \in DOMAIN w.h : A[j].u = w.h[k].u /\ A[j].tags # w.h[k].tags THEN {"wrong-tags"} ELSE {})
             \cup (IF \E j \in DOMAIN A, k \in DOMAIN w.h : A[j].u = w.h[k].u /\ A[j].trust # w.h[k].trust THEN {"wrong-trust"} ELSE {})
             \cup {"wrong-result"})
TraceInit == t \in DOMAIN Data /\ i = 0
Step == /\ i = 0
        /\ \A k \in DOMAIN Data[t].cases : \A p \in Bad(Data[t].cases[k]) :
             PrintT("@@" \o ToJson([t |-> t, i |-> k, k |-> p, op |-> Data[t].cases[k].kind]))
        /\ PrintT("@@" \o ToJson([t |-> t, i |-> 0, k |-> "DONE", op |-> ""]))
        /\ i' = 1 /\ UNCHANGED t
TraceSpec == TraceInit /\ [][Step]_<<t, i>>
=============================================================================
