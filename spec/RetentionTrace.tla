---------------------------- MODULE RetentionTrace ----------------------------
(* Expiries by the real code: [cases], a case [revs, sched, now, manual,     *)
(* after, again, err]: before, after one and after a second expiry.          *)
EXTENDS Retention, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
VARIABLES t, i
Set(q) == {q[j] : j \in DOMAIN q}
Revs(r) == [u \in DOMAIN r |-> [r[u] EXCEPT !.tags = Set(@)]]
Bad(c) ==
  IF c.err # "" THEN {"expiry-failed"}
  ELSE RetentionProblems(Revs(c.revs), c.sched, c.now, Set(c.manual), Revs(c.after))
       \cup (IF Revs(c.again) # Revs(c.after) THEN {"not-idempotent"} ELSE {})
TraceInit == t \in DOMAIN Data /\ i = 0
Step == /\ i = 0
        /\ \A k \in DOMAIN Data[t].cases : \A p \in Bad(Data[t].cases[k]) :
             PrintT("@@" \o ToJson([t |-> t, i |-> k, k |-> p, op |-> "expire"]))
        /\ PrintT("@@" \o ToJson([t |-> t, i |-> 0, k |-> "DONE", op |-> ""]))
        /\ i' = 1 /\ UNCHANGED t
TraceSpec == TraceInit /\ [][Step]_<<t, i>>
=============================================================================
