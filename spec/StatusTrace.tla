------------------------------ MODULE StatusTrace ------------------------------
(***************************************************************************)
(* Recorded answers of the real code.  A case:                             *)
(*  [kind, jobs: name -> job, match: names selected, now, manual, err, ...]*)
(*  kind "status": got: sequence of [job, ...]; kind "check": exit         *)
(***************************************************************************)
EXTENDS Status, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
VARIABLES t, i
Set(q) == {q[j] : j \in DOMAIN q}
Job(j) == [j EXCEPT !.revs = [u \in DOMAIN j.revs |-> [j.revs[u] EXCEPT !.tags = Set(@), !.orig = Set(@)]],
                    !.next_tags = Set(@)]
BadStatus(c) ==
  IF c.err # "" THEN {"no-status"}
  ELSE (IF {c.got[j].job : j \in DOMAIN c.got} # Set(c.match) \/ Len(c.got) # Cardinality(Set(c.match))
        THEN {"wrong-jobs"} ELSE {})
       \cup UNION {IF c.got[j].job \in DOMAIN c.jobs
                   THEN StatusProblems(Job(c.jobs[c.got[j].job]), Set(c.manual), c.now, c.got[j]) ELSE {}
                   : j \in DOMAIN c.got}
BadCheck(c) ==
  IF c.match = <<>> THEN IF c.exit = 0 THEN {"nothing-checked"} ELSE {}
  ELSE IF c.exit # CheckAll([n \in Set(c.match) |-> Job(c.jobs[n])], c.now) THEN {"exit-status"} ELSE {}
Bad(c) == IF c.kind = "status" THEN BadStatus(c) ELSE BadCheck(c)
TraceInit == t \in DOMAIN Data /\ i = 0
Step == /\ i = 0
        /\ \A k \in DOMAIN Data[t].cases : \A p \in Bad(Data[t].cases[k]) :
             PrintT("@@" \o ToJson([t |-> t, i |-> k, k |-> p, op |-> Data[t].cases[k].kind]))
        /\ PrintT("@@" \o ToJson([t |-> t, i |-> 0, k |-> "DONE", op |-> ""]))
        /\ i' = 1 /\ UNCHANGED t
TraceSpec == TraceInit /\ [][Step]_<<t, i>>
=============================================================================
