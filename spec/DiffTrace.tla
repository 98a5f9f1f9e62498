------------------------------- MODULE DiffTrace -------------------------------
(***************************************************************************)
(* Streams applied by the real code.  A case:                              *)
(*  [kind "apply", old, st, part (a started but incomplete token follows), *)
(*   ok, img]                                     integrated into a file   *)
(*  [kind "run", old, new, st, part, ok, complete, img, before]            *)
(*   a whole incremental backup: reported success, is there a complete new *)
(*   revision and with what content, are the earlier ones as they were     *)
(*  [kind "export", new, cut, ok, complete, img, before]   a full backup   *)
(***************************************************************************)
EXTENDS Diff, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
VARIABLES t, i
Stream(c) == IF c.part THEN Append(c.st, [r |-> "bad"]) ELSE c.st
Run(ok, want, c) ==
  (IF c.before THEN {} ELSE {"earlier-revision-harmed"})
  \cup (IF ok THEN (IF c.ok /\ c.complete THEN {} ELSE {"good-stream-refused"})
        ELSE (IF c.ok \/ c.complete THEN {"broken-stream-accepted"} ELSE {}))
  \cup (IF c.complete /\ ok /\ c.img # want THEN {"wrong-content"} ELSE {})
Bad(c) ==
  CASE c.kind = "apply" ->
         LET w == Integrate(c.old, Stream(c), "A", "B") IN
         IF w.ok # c.ok THEN {IF w.ok THEN "good-stream-refused" ELSE "broken-stream-accepted"}
         ELSE IF w.ok /\ w.img # c.img THEN {"wrong-content"} ELSE {}
    [] c.kind = "run" ->
         LET w == Integrate(c.old, Stream(c), "A", "B") IN
         IF w.ok /\ w.img # c.new THEN {"bad-case"} ELSE Run(w.ok, w.img, c)
    [] c.kind = "export" -> Run(~c.cut, c.new, c)
TraceInit == t \in DOMAIN Data /\ i = 0
Step == /\ i = 0
        /\ \A k \in DOMAIN Data[t].cases : \A p \in Bad(Data[t].cases[k]) :
             PrintT("@@" \o ToJson([t |-> t, i |-> k, k |-> p, op |-> Data[t].cases[k].kind]))
        /\ PrintT("@@" \o ToJson([t |-> t, i |-> 0, k |-> "DONE", op |-> ""]))
        /\ i' = 1 /\ UNCHANGED t
TraceSpec == TraceInit /\ [][Step]_<<t, i>>
=============================================================================
