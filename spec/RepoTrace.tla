------------------------------ MODULE RepoTrace ------------------------------
(* Recorded executions of the real repository, checked step by step against *)
(* RepoOps.  After a deviation checking continues from the observed state.  *)
EXTENDS RepoOps, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)

S(q) == {q[i] : i \in DOMAIN q}
ToRev(r) == [t |-> r.t, tags |-> S(r.tags), orig |-> S(r.orig), server |-> r.server,
             trust |-> r.trust, clean |-> r.clean, map |-> r.map, refs |-> S(r.refs)]
ToState(o, full) ==
  [revs |-> [u \in DOMAIN o.revs |-> ToRev(o.revs[u])],
   store |-> [c \in DOMAIN o.store |-> o.store[c]],
   snaps |-> S(o.snaps), foreign |-> S(o.foreign), pend |-> o.pend,
   reports |-> S(o.reports), full |-> full]
Cont(o) == [u \in DOMAIN o.revs |-> o.revs[u].cont]

SetFields == {"tags", "touched", "samp", "fresh", "faults", "sel", "listed", "manual"}
RECURSIVE ToEvent(_)
ToEvent(a) == [f \in DOMAIN a |-> IF f \in SetFields THEN S(a[f])
                                  ELSE IF f \in {"a", "b"} THEN ToEvent(a[f])
                                  ELSE IF f = "ref" THEN [u \in DOMAIN a.ref |-> ToRev(a.ref[u])]
                                  ELSE a[f]]

VARIABLES t, i, want
Tr == Data[t]
Obs(j) == IF j = 0 THEN Tr.init ELSE Tr.steps[j].post
Rpt(k, e) == PrintT("@@" \o ToJson([t |-> t, i |-> i, k |-> k, op |-> e]))

TraceInit == t \in DOMAIN Data /\ i = 1 /\ want = <<>>

Step ==
  /\ i <= Len(Tr.steps)
  /\ LET e == Tr.steps[i]
         a == ToEvent(e.a)
         s == ToState(Obs(i - 1), Tr.full)
         s2 == ToState(Obs(i), Tr.full)
         w == IF "n" \in DOMAIN a /\ a.op \in {"backup", "crash"} /\ a.n # NONE
              THEN (a.n :> a.img) @@ want
             ELSE IF "wants" \in DOMAIN a THEN a.wants @@ want ELSE want
         bad == Problems(s, a, s2) \cup
                IF a.op = "env" THEN {} ELSE ContentProblems(s2, w, Cont(Obs(i)))
     IN  /\ \A k \in bad : Rpt(k, a.op)
         /\ want' = w
  /\ i' = i + 1 /\ UNCHANGED t
Fin == /\ i = Len(Tr.steps) + 1 /\ Rpt("DONE", "") /\ i' = i + 1 /\ UNCHANGED <<t, want>>
TraceSpec == TraceInit /\ [][Step \/ Fin]_<<t, i, want>>
=============================================================================
