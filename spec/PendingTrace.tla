------------------------------ MODULE PendingTrace ------------------------------
(* A trace: rounds; a round: sequence of [n: name, d, o] (one per entry of the base directory) *)
EXTENDS Pending, Json, IOUtils
Data == JsonDeserialize(IOEnv.DATA)
VARIABLES t, i
TraceInit == t \in DOMAIN Data /\ i = 0
Step == /\ i = 0
        /\ \A k \in DOMAIN Data[t] : \A e \in DOMAIN Data[t][k] : \A p \in OutcomeBad(Data[t][k][e].d, Data[t][k][e].o) :
             PrintT("@@" \o ToJson([t |-> t, i |-> k, k |-> p, op |-> Data[t][k][e].n]))
        /\ PrintT("@@" \o ToJson([t |-> t, i |-> 0, k |-> "DONE", op |-> ""]))
        /\ i' = 1 /\ UNCHANGED t
TraceSpec == TraceInit /\ [][Step]_<<t, i>>
=============================================================================
