------------------------------- MODULE RevTrace -------------------------------
(* Resolutions of revision specifications by the real code, judged by       *)
(* RevSpec.  A trace: [hist, cases], a case [t (the tokens),      *)
(* single, out (positions, or <<-1>> for an error, <<-2>> for output that   *)
(* is not a list of revisions)].                                            *)
EXTENDS RevSpec, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
VARIABLES t, i, hist
Tr == Data[t]
Rpt(k, e) == PrintT("@@" \o ToJson([t |-> t, i |-> i, k |-> k, op |-> e]))
TraceInit == /\ t \in DOMAIN Data /\ i = 0
             /\ hist = [j \in 1..Len(Tr.hist) |-> [Tr.hist[j] EXCEPT !.tags = Elem(Tr.hist[j].tags)]]
Verdict(H, c) ==
  LET T == c.t
      r == IF c.single THEN Single(H, T) ELSE Many(H, T)
  IN  IF c.out = <<-2>> THEN "other-output"
      ELSE IF r.ok THEN (IF c.out = r.q \/ (c.out = <<-1>> /\ Refusable(H, T)) THEN "ok"
                         ELSE IF c.out = <<-1>> THEN "refused"
                         ELSE IF Elem(c.out) = Elem(r.q) /\ Len(c.out) = Len(r.q) THEN "wrong-order"
                         ELSE "wrong-selection")
      ELSE IF c.out = <<-1>> THEN "ok"
      \* a list of exactly one revision may be taken for that revision
      ELSE IF c.single /\ Len(c.out) = 1 /\ Many(H, T).q = c.out THEN "ok"
      ELSE IF c.out = <<>> /\ Refusable(H, T) THEN "ok"
      ELSE "selected-despite-error"
(* all cases of a trace in one step *)
Step == /\ i = 0
        /\ \A k \in DOMAIN Tr.cases :
             LET v == Verdict(hist, Tr.cases[k]) IN
             IF v = "ok" THEN TRUE
             ELSE PrintT("@@" \o ToJson([t |-> t, i |-> k, k |-> v, op |-> "spec"]))
        /\ Rpt("DONE", "") /\ i' = 1 /\ UNCHANGED <<t, hist>>
TraceSpec == TraceInit /\ [][Step]_<<t, i, hist>>
=============================================================================
