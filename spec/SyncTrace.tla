-------------------------------- MODULE SyncTrace --------------------------------
(* A trace: steps [kind, m0, m1, ...] *)
EXTENDS Sync, Json, IOUtils
Data == JsonDeserialize(IOEnv.DATA)
VARIABLES t, i
Elems(s) == {s[k] : k \in DOMAIN s}
Fix(m) == [u \in DOMAIN m |-> [m[u] EXCEPT !.tags = Elems(@), !.orig = Elems(@)]]
FixP(ps) == [p \in DOMAIN ps |-> [ps[p] EXCEPT !.revs = Fix(@)]]
FixO(os) == [p \in DOMAIN os |-> [os[p] EXCEPT !.revs0 = Fix(@), !.revs1 = Fix(@)]]
Bad(s) == IF s.kind = "pull" THEN PullBad(Fix(s.m0), Fix(s.m1), FixP(s.peers)) \cup If(s.refused # s.raised, "raised")
          ELSE IF s.kind = "push" THEN PushBad(Fix(s.m0), Fix(s.m1), FixO(s.own), s.puts, s.purges) \cup If(s.refused # s.raised, "raised")
          ELSE {}
TraceInit == t \in DOMAIN Data /\ i = 0
Step == /\ i = 0
        /\ \A k \in DOMAIN Data[t] : \A p \in Bad(Data[t][k]) :
             PrintT("@@" \o ToJson([t |-> t, i |-> k, k |-> p, op |-> Data[t][k].kind]))
        /\ PrintT("@@" \o ToJson([t |-> t, i |-> 0, k |-> "DONE", op |-> ""]))
        /\ i' = 1 /\ UNCHANGED t
TraceSpec == TraceInit /\ [][Step]_<<t, i>>
=============================================================================
