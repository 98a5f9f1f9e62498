------------------------------ MODULE FileRepoTrace ------------------------------
(* A trace: steps of [before, after, want, ops, sched, now, manual] *)
EXTENDS FileRepo, Json, IOUtils
Data == JsonDeserialize(IOEnv.DATA)
VARIABLES t, i
Elems(s) == {s[k] : k \in DOMAIN s}
Fix(revs) == [u \in DOMAIN revs |-> [revs[u] EXCEPT !.tags = Elems(@)]]
Ops(ops) == [k \in DOMAIN ops |-> [ops[k] EXCEPT !.sel = Elems(@), !.tags = Elems(@)]]
Sched(s) == [g \in DOMAIN s |-> [interval |-> s[g][1], keep |-> s[g][2]]]
Bad(s) == StepBad(Fix(s.before), Fix(s.after), s.want, Ops(s.ops), Sched(s.sched), s.now, Elems(s.manual))
TraceInit == t \in DOMAIN Data /\ i = 0
Step == /\ i = 0
        /\ \A k \in DOMAIN Data[t] : \A p \in Bad(Data[t][k]) :
             PrintT("@@" \o ToJson([t |-> t, i |-> k, k |-> p, op |-> ""]))
        /\ PrintT("@@" \o ToJson([t |-> t, i |-> 0, k |-> "DONE", op |-> ""]))
        /\ i' = 1 /\ UNCHANGED t
TraceSpec == TraceInit /\ [][Step]_<<t, i>>
=============================================================================
