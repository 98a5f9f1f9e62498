------------------------------- MODULE LoopTrace -------------------------------
EXTENDS Loop, SequencesExt, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
VARIABLES t, i
(* c: [sched, spread, peers, cbconf, busy, events] *)
Run(c) == FoldLeft(LAMBDA a, e : LET m == Feed(c, a.m, e) IN
                     [m |-> m, k |-> a.k + 1, out |-> IF m.bad = {} THEN a.out ELSE Append(a.out, [i |-> a.k, bad |-> m.bad])],
                   [m |-> Start(c), k |-> 1, out |-> <<>>], c.events)
TraceInit == t \in DOMAIN Data /\ i = 0
Step == /\ i = 0
        /\ LET out == Run(Data[t]).out IN
           \A k \in DOMAIN out : \A p \in out[k].bad :
             PrintT("@@" \o ToJson([t |-> t, i |-> out[k].i, k |-> p, op |-> ""]))
        /\ PrintT("@@" \o ToJson([t |-> t, i |-> 0, k |-> "DONE", op |-> ""]))
        /\ i' = 1 /\ UNCHANGED t
TraceSpec == TraceInit /\ [][Step]_<<t, i>>
=============================================================================
