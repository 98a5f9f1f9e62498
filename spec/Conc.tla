--------------------------------- MODULE Conc ---------------------------------
(***************************************************************************)
(* Operations of several processes on one repository, in the atomic steps  *)
(* of the implementation: taking and releasing the locks (.backup          *)
(* exclusive without waiting; .purge shared waiting, exclusive without     *)
(* waiting), scanning the history, and every single effect on a record or  *)
(* a chunk file.  Every revision record is written as a whole from the     *)
(* process's own view, which is how stale views lose updates.              *)
(*                                                                         *)
(* Bugs (negative controls, all refuted by TLC):                           *)
(*  "gc-stale" gc uses a view taken before it got its lock                 *)
(*  "edit-stale" rm/distrust/tags write records as seen before locking     *)
(*  "clean-stale" clean removes what looked incomplete before locking      *)
(*  "verify-stale" verification marks a record seen before locking         *)
(*  "verify-unlocked" verification does not take .backup                   *)
(*  "gc-shared" gc takes .purge shared                                     *)
(*  "restore-unlocked" (harmless for stored data, must still fail loudly)  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Procs, Kinds, Bugs, Quiet

CO == INSTANCE ConcOps

Bug(b) == b \in Bugs
Sched == [daily |-> [interval |-> 1, keep |-> 1]]
Now == 100
Image == {2, 4}              \* the pieces of the image; 4 is stored but unreferenced

Init0 == [a |-> [t |-> 10, tags |-> {"daily"}, server |-> "", trust |-> "trusted", clean |-> TRUE, refs |-> {1, 2}],
          b |-> [t |-> 20, tags |-> {"daily"}, server |-> "", trust |-> "trusted", clean |-> TRUE, refs |-> {2, 3}],
          x |-> [t |-> 25, tags |-> {"daily"}, server |-> "", trust |-> "trusted", clean |-> FALSE, refs |-> {2}]]

VARIABLES revs, store, lockB, lockP, pc, op, view, todo, base, res, start

vars == <<revs, store, lockB, lockP, pc, op, view, todo, base, res, start>>
view0 == <<revs, store, lockB, lockP, pc, op, view, todo, base, res, start>>

New(p) == "n" \o ToString(p)
Operations(p) ==
  {[op |-> k, n |-> New(p), t |-> 30 + p, tags |-> {"daily"}, rc |-> 0] : k \in Kinds \cap {"backup"}}
  \cup {[op |-> k, rc |-> 0] : k \in Kinds \cap {"gc", "clean"}}
  \cup {[op |-> k, n |-> u, rc |-> 0] : k \in Kinds \cap {"verify", "restore"}, u \in {"a", "b"}}
  \cup {[op |-> k, sel |-> s, rc |-> 0] : k \in Kinds \cap {"rm", "distrust"}, s \in {{"a"}, {"a", "b"}}}
  \cup {[op |-> k, sel |-> {"a", "b"}, act |-> "add", tags |-> {"manual:" \o ToString(p)}, auto |-> FALSE, rc |-> 0]
          : k \in Kinds \cap {"tags"}}
  \cup {[op |-> k, sched |-> Sched, now |-> Now, manual |-> {"manual:1", "manual:2", "manual:3"}, rc |-> 0]
          : k \in Kinds \cap {"expire"}}

Init ==
  /\ \E ta, tb \in {"trusted", "distrusted"} :
       /\ revs = [Init0 EXCEPT !.a.trust = ta, !.b.trust = tb]
       /\ Quiet => ta = tb
  /\ store = {1, 2, 3, 4}
  /\ lockB = 0 /\ lockP = [p \in Procs |-> "-"]
  /\ op \in [Procs -> UNION {Operations(p) : p \in Procs}]
  /\ \A p \in Procs : op[p] \in Operations(p)
  /\ pc = [p \in Procs |-> "start"]
  /\ view = [p \in Procs |-> <<>>] /\ todo = [p \in Procs |-> {}]
  /\ base = [p \in Procs |-> {}] /\ res = [p \in Procs |-> ""]
  /\ start = revs

K(p) == op[p].op
Go(p, l) == pc' = [pc EXCEPT ![p] = l]
Scan(p) == view' = [view EXCEPT ![p] = revs]
Free(p) == /\ lockB' = IF lockB = p THEN 0 ELSE lockB
           /\ lockP' = [lockP EXCEPT ![p] = "-"]
Finish(p, r) == Go(p, "done") /\ res' = [res EXCEPT ![p] = r] /\ Free(p)

(* every command first reads the history without any lock *)
Start(p) ==
  /\ pc[p] = "start" /\ Scan(p)
  /\ (K(p) \in {"verify", "restore"} => op[p].n \in DOMAIN revs)
  /\ Go(p, CASE K(p) \in {"gc"} -> "lockPX"
             [] K(p) = "restore" -> "lockPS"
             [] K(p) = "backup" -> "cleanlock"
             [] K(p) = "verify" /\ Bug("verify-unlocked") -> "scan"
             [] OTHER -> "lockB")
  /\ todo' = [todo EXCEPT ![p] = IF K(p) \in {"verify", "restore"}
                                 THEN revs[op[p].n].refs ELSE {}]
  /\ UNCHANGED <<revs, store, lockB, lockP, op, base, res, start>>

Unknown(p) ==
  /\ pc[p] = "start" /\ K(p) \in {"verify", "restore"} /\ op[p].n \notin DOMAIN revs
  /\ Finish(p, "refused")
  /\ UNCHANGED <<revs, store, op, view, todo, base, start>>

LockB(p) ==
  /\ pc[p] \in {"lockB", "cleanlock", "endlock"}
  /\ IF lockB = 0
     THEN /\ lockB' = p
          /\ Go(p, CASE pc[p] = "cleanlock" -> "cleanscan"
                     [] pc[p] = "endlock" -> "endscan" [] OTHER -> "scan")
          /\ UNCHANGED <<res, lockP>>
     ELSE \* refused at once; a backup that was done stays done
          Finish(p, IF pc[p] = "endlock" THEN res[p] ELSE "refused")
  /\ UNCHANGED <<revs, store, op, view, todo, base, start>>

(* clean-up of incomplete revisions, alone or around a backup *)
Incomplete(v) == {u \in DOMAIN v : ~v[u].clean /\ v[u].server = ""}
CleanScan(p) ==
  /\ pc[p] \in {"cleanscan", "endscan"}
  /\ (IF Bug("clean-stale") THEN UNCHANGED view ELSE Scan(p))
  /\ todo' = [todo EXCEPT ![p] = Incomplete(IF Bug("clean-stale") THEN view[p] ELSE revs)]
  /\ Go(p, IF pc[p] = "cleanscan" THEN "clean" ELSE "end")
  /\ UNCHANGED <<revs, store, lockB, lockP, op, base, res, start>>
CleanOne(p) ==
  /\ pc[p] \in {"clean", "end"} /\ todo[p] # {}
  /\ \E u \in todo[p] :
       /\ revs' = CO!Drop(revs, {u}) /\ todo' = [todo EXCEPT ![p] = @ \ {u}]
  /\ UNCHANGED <<store, lockB, lockP, pc, op, view, base, res, start>>
CleanDone(p) ==
  /\ pc[p] = "clean" /\ todo[p] = {}
  /\ Free(p) /\ Go(p, "create")
  /\ UNCHANGED <<revs, store, op, view, todo, base, res, start>>
EndDone(p) ==
  /\ pc[p] = "end" /\ todo[p] = {}
  /\ Finish(p, res[p]) /\ UNCHANGED <<revs, store, op, view, todo, base, start>>

(* the revision record is created before the backup takes its locks *)
Create(p) ==
  /\ pc[p] = "create"
  /\ revs' = revs @@ (op[p].n :> [t |-> op[p].t, tags |-> op[p].tags, server |-> "",
                                   trust |-> "trusted", clean |-> FALSE, refs |-> {}])
  /\ Go(p, "backuplock")
  /\ UNCHANGED <<store, lockB, lockP, op, view, todo, base, res, start>>
BackupLock(p) ==
  /\ pc[p] = "backuplock"
  /\ IF lockB = 0 THEN /\ lockB' = p /\ Go(p, "lockPS") /\ UNCHANGED res
     ELSE /\ res' = [res EXCEPT ![p] = "refused"] /\ Go(p, "endlock") /\ UNCHANGED lockB
  /\ UNCHANGED <<revs, store, lockP, op, view, todo, base, start>>

LockPS(p) ==
  /\ pc[p] = "lockPS"
  /\ \A q \in Procs \ {p} : lockP[q] # "X"
  /\ lockP' = [lockP EXCEPT ![p] = "S"]
  /\ Go(p, CASE K(p) = "restore" -> "read" [] K(p) = "backup" -> "bscan" [] OTHER -> "check")
  /\ UNCHANGED <<revs, store, lockB, op, view, todo, base, res, start>>
LockPX(p) ==
  /\ pc[p] = "lockPX"
  /\ IF (Bug("gc-shared") /\ \A q \in Procs : lockP[q] # "X") \/ \A q \in Procs : lockP[q] = "-"
     THEN /\ lockP' = [lockP EXCEPT ![p] = IF Bug("gc-shared") THEN "S" ELSE "X"]
          /\ Go(p, "gcscan") /\ UNCHANGED <<res, lockB>>
     ELSE Finish(p, "refused")
  /\ UNCHANGED <<revs, store, op, view, todo, base, start>>

(* after .backup was taken *)
ScanB(p) ==
  /\ pc[p] = "scan"
  /\ LET stale == \/ Bug("edit-stale") /\ K(p) \in {"rm", "distrust", "tags", "expire"}
                  \/ Bug("verify-stale") /\ K(p) = "verify"
                  \/ Bug("clean-stale") /\ K(p) = "clean"
         v == IF stale THEN view[p] ELSE revs
     IN  /\ view' = [view EXCEPT ![p] = v]
         /\ CASE K(p) = "verify" ->
                  IF op[p].n \in DOMAIN v
                  THEN todo' = [todo EXCEPT ![p] = v[op[p].n].refs] /\ Go(p, "lockPS") /\ UNCHANGED <<res, lockB, lockP>>
                  ELSE Finish(p, "refused") /\ UNCHANGED todo
              [] K(p) = "clean" -> todo' = [todo EXCEPT ![p] = Incomplete(v)] /\ Go(p, "apply") /\ UNCHANGED <<res, lockB, lockP>>
              [] K(p) = "expire" -> todo' = [todo EXCEPT ![p] = {u \in DOMAIN v :
                                       u \notin DOMAIN CO!Meta(op[p], v) \/ CO!Meta(op[p], v)[u] # v[u]}]
                                    /\ Go(p, "apply") /\ UNCHANGED <<res, lockB, lockP>>
              [] OTHER -> todo' = [todo EXCEPT ![p] = op[p].sel \cap DOMAIN v] /\ Go(p, "apply") /\ UNCHANGED <<res, lockB, lockP>>
  /\ UNCHANGED <<revs, store, op, base, start>>

(* one record at a time: remove it or write it as a whole *)
Apply(p) ==
  /\ pc[p] = "apply" /\ todo[p] # {}
  /\ \E u \in todo[p] :
       /\ LET w == CO!Meta(op[p], view[p]) IN
          revs' = IF u \in DOMAIN w THEN (u :> w[u]) @@ revs ELSE CO!Drop(revs, {u})
       /\ todo' = [todo EXCEPT ![p] = @ \ {u}]
  /\ UNCHANGED <<store, lockB, lockP, pc, op, view, base, res, start>>
ApplyDone(p) ==
  /\ pc[p] = "apply" /\ todo[p] = {} /\ Finish(p, "ok")
  /\ UNCHANGED <<revs, store, op, view, todo, base, start>>

(* garbage collection *)
Refs(v) == UNION {v[u].refs : u \in CO!Loc(v)}
GcScan(p) ==
  /\ pc[p] = "gcscan"
  /\ LET v == IF Bug("gc-stale") THEN view[p] ELSE revs
     IN  todo' = [todo EXCEPT ![p] = store \ Refs(v)]
  /\ Go(p, "gc")
  /\ UNCHANGED <<revs, store, lockB, lockP, op, view, base, res, start>>
GcOne(p) ==
  /\ pc[p] = "gc" /\ todo[p] # {}
  /\ \E c \in todo[p] : store' = store \ {c} /\ todo' = [todo EXCEPT ![p] = @ \ {c}]
  /\ UNCHANGED <<revs, lockB, lockP, pc, op, view, base, res, start>>
GcDone(p) ==
  /\ pc[p] = "gc" /\ todo[p] = {}
  /\ IF K(p) = "backup" THEN /\ Free(p) /\ Go(p, "endlock") /\ UNCHANGED res
     ELSE Finish(p, "ok")
  /\ UNCHANGED <<revs, store, op, view, todo, base, start>>

(* verification: read every chunk, then mark and collect garbage *)
Check(p) ==
  /\ pc[p] = "check" /\ todo[p] # {}
  /\ \E c \in todo[p] : todo' = [todo EXCEPT ![p] = @ \ {c}]
                        /\ base' = [base EXCEPT ![p] = IF c \in store THEN @ ELSE @ \cup {c}]
  /\ UNCHANGED <<revs, store, lockB, lockP, pc, op, view, res, start>>
Target(p) == IF K(p) = "verify" THEN op[p].n
             ELSE CO!NewestOf(view[p], {u \in CO!Loc(view[p]) \cap CO!Cln(view[p]) : view[p][u].trust = "distrusted"})
CheckDone(p) ==
  /\ pc[p] = "check" /\ todo[p] = {}
  /\ revs' = IF base[p] # {} THEN CO!Drop(revs, {Target(p)})
             ELSE (Target(p) :> [view[p][Target(p)] EXCEPT !.trust = "verified"]) @@ revs
  /\ Go(p, "gcscan")
  /\ UNCHANGED <<store, lockB, lockP, op, view, todo, base, res, start>>

(* backup: scan, write chunks that are not there yet, complete *)
BackupScan(p) ==
  /\ pc[p] = "bscan" /\ Scan(p)
  /\ IF op[p].n \in DOMAIN revs
     THEN todo' = [todo EXCEPT ![p] = Image] /\ Go(p, "write") /\ UNCHANGED <<res, lockB, lockP>>
     ELSE /\ res' = [res EXCEPT ![p] = "refused"] /\ Free(p) /\ Go(p, "endlock") /\ UNCHANGED todo
  /\ UNCHANGED <<revs, store, op, base, start>>
Write(p) ==
  /\ pc[p] = "write" /\ todo[p] # {}
  /\ \E c \in todo[p] : store' = store \cup {c} /\ todo' = [todo EXCEPT ![p] = @ \ {c}]
  /\ UNCHANGED <<revs, lockB, lockP, pc, op, view, base, res, start>>
Complete(p) ==
  /\ pc[p] = "write" /\ todo[p] = {}
  /\ revs' = (op[p].n :> [view[p][op[p].n] EXCEPT !.clean = TRUE, !.refs = Image]) @@ revs
  /\ Go(p, "bscan2")
  /\ UNCHANGED <<store, lockB, lockP, op, view, todo, base, res, start>>
BackupScan2(p) ==
  /\ pc[p] = "bscan2" /\ Scan(p)
  /\ res' = [res EXCEPT ![p] = "ok"]
  /\ LET D == {u \in CO!Loc(revs) \cap CO!Cln(revs) : revs[u].trust = "distrusted"}
     IN IF D = {} THEN Free(p) /\ Go(p, "endlock") /\ UNCHANGED todo
        ELSE /\ todo' = [todo EXCEPT ![p] = revs[CO!NewestOf(revs, D)].refs]
             /\ Go(p, "check") /\ UNCHANGED <<lockB, lockP>>
  /\ UNCHANGED <<revs, store, op, base, start>>

(* restore: the list of chunks was read at the start *)
Read(p) ==
  /\ pc[p] = "read" /\ todo[p] # {}
  /\ \E c \in todo[p] :
       IF c \in store THEN todo' = [todo EXCEPT ![p] = @ \ {c}] /\ UNCHANGED <<pc, res, lockB, lockP>>
       ELSE Finish(p, "failed") /\ UNCHANGED todo
  /\ UNCHANGED <<revs, store, op, view, base, start>>
ReadDone(p) ==
  /\ pc[p] = "read" /\ todo[p] = {} /\ Finish(p, "ok")
  /\ UNCHANGED <<revs, store, op, view, todo, base, start>>

Step(p) == \/ Start(p) \/ Unknown(p) \/ LockB(p) \/ CleanScan(p) \/ CleanOne(p) \/ CleanDone(p) \/ EndDone(p)
           \/ Create(p) \/ BackupLock(p) \/ LockPS(p) \/ LockPX(p) \/ ScanB(p) \/ Apply(p)
           \/ ApplyDone(p) \/ GcScan(p) \/ GcOne(p) \/ GcDone(p) \/ Check(p) \/ CheckDone(p)
           \/ BackupScan(p) \/ Write(p) \/ Complete(p) \/ BackupScan2(p) \/ Read(p) \/ ReadDone(p)
AllDone == \A p \in Procs : pc[p] = "done"
Next == (\E p \in Procs : Step(p)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* At most one backup transfers data at any time. *)
OneBackup == Cardinality({p \in Procs : K(p) = "backup" /\
               pc[p] \in {"lockPS", "bscan", "write", "bscan2", "check", "gcscan", "gc"}}) <= 1

(* Every complete revision's data is there (at every moment). *)
DataKept == \A u \in CO!Loc(revs) : revs[u].clean => revs[u].refs \subseteq store

(* The outcome is that of some order of the operations that took place. *)
Serial == AllDone =>
   LET ops == [p \in Procs |-> [op[p] EXCEPT !.rc = IF res[p] = "ok" THEN 0 ELSE 1]
                 @@ [part |-> FALSE, n |-> ""]]
   IN  CO!Vis(revs) \in {CO!Vis(r) : r \in CO!Outcomes(ops, start)}
(* A refused operation leaves nothing behind but an incomplete record. *)
Outcome == AllDone => \A p \in Procs : res[p] \in {"ok", "refused", "failed"}
(* A restore fails only if its revision's data was allowed to go away. *)
RestoreFails == AllDone => \A p \in Procs : res[p] = "failed" =>
   op[p].n \notin DOMAIN revs
=============================================================================
