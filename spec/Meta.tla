--------------------------------- MODULE Meta ---------------------------------
(***************************************************************************)
(* Small files that describe something: revisions, job configurations,     *)
(* problem reports.                                                        *)
(*                                                                         *)
(* What is promised (used by MetaMC for the algorithm and by MetaTrace for *)
(* the recorded behaviour of the code):                                    *)
(*  - a reader finds the complete old or the complete new version, and     *)
(*    having seen the new one never sees the old one again,                *)
(*  - after success it is the new one,                                     *)
(*  - what was stored is what is read back; rewriting one part keeps the   *)
(*    others; the history lists every stored revision once, oldest first.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Elems(q) == {q[j] : j \in DOMAIN q}

\* ---- atomic replacement ---------------------------------------------------
\* seen: what readers found over time ("old", "new" or anything else);
\* end: how the writer ended ("ok", "failed", "killed", "running")
SeenBad(seen, end) ==
  (IF Elems(seen) \subseteq {"old", "new"} THEN {} ELSE {"half-written"})
  \cup (IF \E a, b \in DOMAIN seen : a < b /\ seen[a] = "new" /\ seen[b] = "old" THEN {"went-back"} ELSE {})
  \cup (IF end = "ok" /\ seen # <<>> /\ seen[Len(seen)] # "new" THEN {"update-lost"} ELSE {})

\* ---- contents -------------------------------------------------------------
\* m: [id, time, tags (set), orig (set), stats, trust, server]
Apply(m, o) ==
  CASE o.op = "set"     -> [m EXCEPT !.tags = Elems(o.tags)]
    [] o.op = "add"     -> [m EXCEPT !.tags = @ \cup Elems(o.tags)]
    [] o.op = "remove"  -> [m EXCEPT !.tags = @ \ Elems(o.tags)]
    [] o.op = "trust"   -> [m EXCEPT !.trust = o.trust]
    [] o.op = "rewrite" -> m
RECURSIVE After(_, _, _)
After(m, ops, j) == IF j > Len(ops) THEN m ELSE After(Apply(m, ops[j]), ops, j + 1)

\* stored: id -> metadata; h: sequence of what a reader lists
HistoryBad(stored, h) ==
  LET ids == [j \in DOMAIN h |-> h[j].id] IN
  (IF Elems(ids) # DOMAIN stored THEN {"wrong-revisions-listed"} ELSE {})
  \cup (IF Cardinality(Elems(ids)) # Len(ids) THEN {"listed-twice"} ELSE {})
  \cup (IF \E j \in 1..(Len(h) - 1) : h[j].rank > h[j + 1].rank THEN {"wrong-order"} ELSE {})
  \cup UNION {IF ids[j] \in DOMAIN stored
              THEN {"changed-" \o f : f \in {g \in {"time", "tags", "orig", "stats", "trust", "server"} :
                                             h[j].m[g] # stored[ids[j]][g]}}
              ELSE {} : j \in DOMAIN h}
=============================================================================
