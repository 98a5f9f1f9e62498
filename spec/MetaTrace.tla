------------------------------- MODULE MetaTrace -------------------------------
(***************************************************************************)
(* Recorded behaviour of the real code.  A case:                           *)
(*  [kind "replace", seen: file -> sequence of what a reader found, end]   *)
(*  [kind "history", revs: [m, ops] ..., gone: ids removed, readers: name  *)
(*    -> sequence of [id, rank, m]]                                        *)
(***************************************************************************)
EXTENDS Meta, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
VARIABLES t, i
M(m) == [m EXCEPT !.tags = Elems(@), !.orig = Elems(@)]
Stored(c) == LET keep == {j \in DOMAIN c.revs : c.revs[j].m.id \notin Elems(c.gone)} IN
  [u \in {c.revs[j].m.id : j \in keep} |->
     LET r == c.revs[CHOOSE j \in keep : c.revs[j].m.id = u] IN After(M(r.m), r.ops, 1)]
Bad(c) ==
  IF c.kind = "replace" THEN UNION {SeenBad(c.seen[f], c.end) : f \in DOMAIN c.seen}
  ELSE LET S == Stored(c) IN
       UNION {HistoryBad(S, [j \in DOMAIN c.readers[r] |-> [c.readers[r][j] EXCEPT !.m = M(@)]]) : r \in DOMAIN c.readers}
       \cup (IF c.err = "" THEN {} ELSE {"unreadable"})
TraceInit == t \in DOMAIN Data /\ i = 0
Step == /\ i = 0
        /\ \A k \in DOMAIN Data[t].cases : \A p \in Bad(Data[t].cases[k]) :
             PrintT("@@" \o ToJson([t |-> t, i |-> k, k |-> p, op |-> Data[t].cases[k].kind]))
        /\ PrintT("@@" \o ToJson([t |-> t, i |-> 0, k |-> "DONE", op |-> ""]))
        /\ i' = 1 /\ UNCHANGED t
TraceSpec == TraceInit /\ [][Step]_<<t, i>>
=============================================================================
