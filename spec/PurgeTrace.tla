------------------------------- MODULE PurgeTrace -------------------------------
(* A trace: rounds of [nodes: seq of [p, k, r], gone, changed, failed, late] *)
EXTENDS Purge, Json, IOUtils
Data == JsonDeserialize(IOEnv.DATA)
VARIABLES t, i
Elems(s) == {s[k] : k \in DOMAIN s}
Tree(r) == [n \in DOMAIN r.nodes |-> [parent |-> r.nodes[n].p, kind |-> r.nodes[n].k, recent |-> r.nodes[n].r]]
Bad(r) == RoundBad(Tree(r), Elems(r.gone), r.changed, r.failed)
          \cup (IF r.outside THEN {"outside"} ELSE {}) \cup (IF r.missing THEN {"stopped"} ELSE {})
TraceInit == t \in DOMAIN Data /\ i = 0
Step == /\ i = 0
        /\ \A k \in DOMAIN Data[t] : \A p \in Bad(Data[t][k]) :
             PrintT("@@" \o ToJson([t |-> t, i |-> k, k |-> p, op |-> "round"]))
        /\ PrintT("@@" \o ToJson([t |-> t, i |-> 0, k |-> "DONE", op |-> ""]))
        /\ i' = 1 /\ UNCHANGED t
TraceSpec == TraceInit /\ [][Step]_<<t, i>>
=============================================================================
