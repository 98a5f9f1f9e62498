--------------------------------- MODULE Tags ---------------------------------
(***************************************************************************)
(* Editing tags, removing and distrusting revisions.  H as in RevSpec;     *)
(* every operation maps the history on disk to [ok, h].                    *)
(***************************************************************************)
EXTENDS RevSpec, TLC

KeepIf(H, P(_)) == SelectSeq(H, P)
(* op: [action, tags, hasExpect, expect, autoremove, force]                *)
(* scheduled: tags of the schedule, manual: the manual tags                *)
NewTags(op, old) ==
  CASE op.action = "set" -> op.tags
    [] op.action = "add" -> old \cup op.tags
    [] op.action = "remove" -> old \ op.tags
Unknown(op, scheduled, manual) == op.tags \ (scheduled \cup manual)
Refused(H, q, op, scheduled, manual) ==
  \/ ~op.force /\ op.action # "remove" /\ Unknown(op, scheduled, manual) # {}
  \/ op.hasExpect /\ \E j \in Elem(q) : H[j].tags # op.expect
(* of the selected positions q *)
EditAt(H, q, op) ==
  LET S == Elem(q)
      new == [j \in 1..Len(H) |-> IF j \in S THEN [H[j] EXCEPT !.tags = NewTags(op, @)] ELSE H[j]]
      gone == {H[j].u : j \in {k \in S : op.autoremove /\ new[k].tags = {} /\ H[k].server = ""}}
  IN  KeepIf(new, LAMBDA r : r.u \notin gone)
Edit(H, T, op, scheduled, manual) ==
  LET s == Many(H, T) IN
  IF ~s.ok \/ Refused(H, s.q, op, scheduled, manual) THEN [ok |-> FALSE, h |-> H]
  ELSE [ok |-> TRUE, h |-> EditAt(H, s.q, op)]
RmAt(H, q) ==
  LET S == Elem(q)
      new == [j \in 1..Len(H) |-> IF j \in S THEN [H[j] EXCEPT !.tags = {}] ELSE H[j]]
      gone == {H[j].u : j \in {k \in S : H[k].server = ""}}
  IN  KeepIf(new, LAMBDA r : r.u \notin gone)
Rm(H, T) == LET s == Many(H, T) IN
  IF ~s.ok THEN [ok |-> FALSE, h |-> H] ELSE [ok |-> TRUE, h |-> RmAt(H, s.q)]
DistrustAt(H, q) == [j \in 1..Len(H) |-> IF j \in Elem(q) THEN [H[j] EXCEPT !.trust = "distrusted"] ELSE H[j]]
(* revisions of other servers cannot be distrusted *)
Distrust(H, T) == LET s == Many(H, T) IN
  IF ~s.ok \/ \E j \in Elem(s.q) : H[j].server # "" THEN [ok |-> FALSE, h |-> H]
  ELSE [ok |-> TRUE, h |-> DistrustAt(H, s.q)]
(* the positions in H of the revisions with these ids *)
At(H, us) == Sel(H, LAMBDA j : H[j].u \in us)
=============================================================================
