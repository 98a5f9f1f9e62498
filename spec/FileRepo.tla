-------------------------------- MODULE FileRepo --------------------------------
(***************************************************************************)
(* Backups of plain files: what one command, or two overlapping ones, may  *)
(* do to the repository.                                                   *)
(*  before, after: revision -> [t, tags, clean, trust, data: id of the     *)
(*    bytes stored for it, server]                                         *)
(*  ops: sequence of [op, rc, sel: selected revisions, tags, act, src: id  *)
(*    of the file's bytes, got: id of the bytes restored, dead: killed]    *)
(*  want: revision -> id of the bytes it has to have (complete ones)       *)
(***************************************************************************)
EXTENDS Retention
Is(ops, n) == {k \in DOMAIN ops : ops[k].op = n}
Sources(ops) == {ops[k].src : k \in Is(ops, "backup")}
New(before, after) == DOMAIN after \ DOMAIN before
\* who may remove revision u
Removers(before, ops, u) == {k \in DOMAIN ops :
   \/ ops[k].op = "rm" /\ u \in ops[k].sel
   \/ ops[k].op = "tags" /\ u \in ops[k].sel /\ ops[k].auto
   \/ ops[k].op = "backup" /\ ~before[u].clean
   \/ ops[k].op = "expire"}
Alone(ops) == Len(ops) = 1
Union(b, a) == [u \in DOMAIN b \cup DOMAIN a |-> IF u \in DOMAIN b THEN b[u] ELSE a[u]]
Act(op, tags) == IF op.act = "add" THEN tags \cup op.tags ELSE IF op.act = "remove" THEN tags \ op.tags ELSE op.tags
\* all tags which may have been there at some time, given other operations
Edits(ops, u) == {k \in Is(ops, "tags") : u \in ops[k].sel}
Ever(b, a, ops) == LET all == Union(b, a) IN
   [u \in DOMAIN all |-> [all[u] EXCEPT !.tags = @ \cup (IF u \in DOMAIN a THEN a[u].tags ELSE {})
      \cup UNION {IF ops[k].act = "remove" THEN {} ELSE ops[k].tags : k \in Edits(ops, u)}]]
ExpireMay(b, a, ops, sched, now, manual, u) ==
   LET e == Ever(b, a, ops)
   IN  \A g \in b[u].tags : \/ MayDrop(e, sched, now, u, g) \/ g \in Former(b, sched, manual, u)
                            \/ \E k \in Edits(ops, u) : g \notin Act(ops[k], b[u].tags)
StepBad(before, after, want, ops, sched, now, manual) ==
  LET If(b, n) == IF b THEN {n} ELSE {}
      new == New(before, after)
      gone == DOMAIN before \ DOMAIN after
      stay == DOMAIN before \cap DOMAIN after
      okb == {k \in Is(ops, "backup") : ops[k].rc = 0}
  IN  \* what is stored
      If(\E u \in stay : want[u] # "" /\ after[u].data # want[u], "data-changed")
  \cup If(\E u \in stay : want[u] # "" /\ ~after[u].clean, "became-incomplete")
  \cup If(\E u \in new : after[u].clean /\ after[u].data \notin Sources(ops), "complete-without-the-data")
  \cup If(\E u \in stay : want[u] = "" /\ after[u].clean /\ after[u].data \notin Sources(ops), "leftover-became-complete")
  \cup If(\E u \in stay : before[u].t # after[u].t \/ before[u].server # after[u].server, "identity-changed")
      \* what is listed
  \cup If(Cardinality(new) > Cardinality(Is(ops, "backup")), "revision-appeared")
  \cup If(Cardinality({u \in new : after[u].clean}) < Cardinality(okb)
          /\ Is(ops, "rm") = {} /\ Is(ops, "tags") = {} /\ Is(ops, "expire") = {}, "acknowledged-backup-missing")
  \cup If(\E u \in gone : Removers(before, ops, u) = {}, "revision-lost")
  \cup If(\E u \in gone : Removers(before, ops, u) # {} /\ \A k \in Removers(before, ops, u) :
            ops[k].op = "expire" /\ ~ExpireMay(before, after, ops, sched, now, manual, u), "expired-early")
  \cup If(\E k \in Is(ops, "rm") : ops[k].rc = 0 /\ ops[k].sel \cap DOMAIN after # {}, "not-removed")
  \cup If(Is(ops, "tags") = {} /\ Is(ops, "expire") = {} /\ \E u \in stay : after[u].tags # before[u].tags, "tags-changed")
  \cup If(Is(ops, "distrust") = {} /\ \E u \in stay : after[u].trust # before[u].trust, "trust-changed")
  \cup If(Alone(ops) /\ \E k \in Is(ops, "distrust") : ops[k].rc = 0 /\ \E u \in ops[k].sel : after[u].trust # "distrusted", "not-distrusted")
  \cup If(Alone(ops) /\ \E k \in Is(ops, "tags") : ops[k].rc = 0
            /\ \E u \in stay : after[u].tags # (IF u \in ops[k].sel THEN Act(ops[k], before[u].tags) ELSE before[u].tags), "tags-wrong")
      \* answers
  \cup If(\E k \in Is(ops, "restore") : ops[k].rc = 0 /\ \E u \in ops[k].sel : want[u] # "" /\ ops[k].got # want[u], "restored-wrong")
  \cup If(\E k \in Is(ops, "restore") \cup Is(ops, "verify") :
            ops[k].rc # 0 /\ ~ops[k].dead /\ Alone(ops) /\ \A u \in ops[k].sel : want[u] # "", "refused")
  \cup If(\E k \in Is(ops, "gc") \cup Is(ops, "rm") \cup Is(ops, "tags") \cup Is(ops, "distrust") \cup Is(ops, "expire") \cup Is(ops, "backup") :
            ops[k].rc # 0 /\ ~ops[k].dead /\ Alone(ops), "failed")
  \cup If(\E k \in DOMAIN ops : ops[k].srcchanged, "source-changed")
=============================================================================
