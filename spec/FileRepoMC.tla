------------------------------- MODULE FileRepoMC -------------------------------
(***************************************************************************)
(* The steps of the commands on a repository of file backups, overlapping  *)
(* in any order, killed anywhere.  Data is copied in two steps.            *)
(*  Locks: backups of the data exclude each other, the clean-up, removals   *)
(*  and collections (the code).                                            *)
(*  Late: completeness is recorded only when the copy is finished (the     *)
(*  code); Glob1st: the collection lists the files before it reads the     *)
(*  history (the code).  With any FALSE an invariant fails.                *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Procs, MaxRev, MaxSrc, Late, Glob1st, Locks
VARIABLES src,   \* content of the file
          rev,   \* number -> "no", "inc", "done"
          want,  \* number -> content the file had when its backup ran
          data,  \* number -> "no", "part", or content
          n, pc, cur, files, hist, asked, acked
vars == <<src, rev, want, data, n, pc, cur, files, hist, asked, acked>>
R == 1..MaxRev
Init == /\ src = 0 /\ rev = [r \in R |-> "no"] /\ want = [r \in R |-> -1] /\ data = [r \in R |-> -2]
        /\ n = 0 /\ pc = [p \in Procs |-> "idle"] /\ cur = [p \in Procs |-> 0]
        /\ files = [p \in Procs |-> {}] /\ hist = [p \in Procs |-> {}] /\ asked = {} /\ acked = {}
Listed == {r \in R : rev[r] # "no"}
Write == /\ src < MaxSrc /\ (\A p \in Procs : pc[p] \notin {"copy", "copy2"}) /\ src' = src + 1
         /\ UNCHANGED <<rev, want, data, n, pc, cur, files, hist, asked, acked>>
\* locks: who copies has .backup and shares .purge, a collection has .purge
FreeB == Locks => \A p \in Procs : pc[p] \notin {"copy2", "record"}
FreeGc == Locks => \A p \in Procs : pc[p] \notin {"gc2", "gc3"}
\* backup: clean leftovers, create, copy, record
Clean(p) == /\ pc[p] = "idle" /\ FreeB /\ n < MaxRev /\ pc' = [pc EXCEPT ![p] = "create"]
            /\ rev' = [r \in R |-> IF rev[r] = "inc" THEN "no" ELSE rev[r]]
            /\ UNCHANGED <<src, want, data, n, cur, files, hist, asked, acked>>
Create(p) == /\ pc[p] = "create" /\ n < MaxRev /\ n' = n + 1 /\ pc' = [pc EXCEPT ![p] = "copy"]
             /\ rev' = [rev EXCEPT ![n + 1] = IF Late THEN "inc" ELSE "done"] /\ cur' = [cur EXCEPT ![p] = n + 1]
             /\ want' = [want EXCEPT ![n + 1] = src]
             /\ UNCHANGED <<src, data, files, hist, asked, acked>>
Copy(p) == /\ pc[p] = "copy" /\ FreeB /\ FreeGc /\ pc' = [pc EXCEPT ![p] = "copy2"]
           /\ data' = [data EXCEPT ![cur[p]] = -1] /\ want' = [want EXCEPT ![cur[p]] = src]
           /\ UNCHANGED <<src, rev, n, cur, files, hist, asked, acked>>
Copied(p) == /\ pc[p] = "copy2" /\ pc' = [pc EXCEPT ![p] = "record"]
             /\ data' = [data EXCEPT ![cur[p]] = src]
             /\ UNCHANGED <<src, rev, want, n, cur, files, hist, asked, acked>>
Record(p) == /\ pc[p] = "record" /\ pc' = [pc EXCEPT ![p] = "end"]
             /\ rev' = [rev EXCEPT ![cur[p]] = "done"] /\ acked' = acked \cup {cur[p]}
             /\ UNCHANGED <<src, want, data, n, cur, files, hist, asked>>
End(p) == /\ pc[p] = "end" /\ pc' = [pc EXCEPT ![p] = "idle"]
          /\ UNCHANGED <<src, rev, want, data, n, cur, files, hist, asked, acked>>
\* collection
Gc1(p) == /\ pc[p] = "idle" /\ FreeB /\ FreeGc /\ pc' = [pc EXCEPT ![p] = "gc2"]
          /\ IF Glob1st THEN files' = [files EXCEPT ![p] = Listed] /\ UNCHANGED hist
             ELSE hist' = [hist EXCEPT ![p] = Listed] /\ UNCHANGED files
          /\ UNCHANGED <<src, rev, want, data, n, cur, asked, acked>>
Gc2(p) == /\ pc[p] = "gc2" /\ pc' = [pc EXCEPT ![p] = "gc3"]
          /\ IF Glob1st THEN hist' = [hist EXCEPT ![p] = Listed] /\ UNCHANGED files
             ELSE files' = [files EXCEPT ![p] = Listed] /\ UNCHANGED hist
          /\ UNCHANGED <<src, rev, want, data, n, cur, asked, acked>>
Gc3(p) == /\ pc[p] = "gc3"
          /\ IF files[p] \ hist[p] = {}
             THEN pc' = [pc EXCEPT ![p] = "idle"] /\ files' = [files EXCEPT ![p] = {}] /\ hist' = [hist EXCEPT ![p] = {}]
                  /\ UNCHANGED rev
             ELSE \E r \in files[p] \ hist[p] :
                    /\ rev' = [rev EXCEPT ![r] = "no"] /\ files' = [files EXCEPT ![p] = @ \ {r}] /\ UNCHANGED <<pc, hist>>
          /\ UNCHANGED <<src, want, data, n, cur, asked, acked>>
\* removal of a listed revision
Rm(p) == /\ pc[p] = "idle" /\ FreeB /\ \E r \in Listed : rev' = [rev EXCEPT ![r] = "no"] /\ asked' = asked \cup {r}
         /\ UNCHANGED <<src, want, data, n, pc, cur, files, hist, acked>>
Kill(p) == /\ pc[p] # "idle" /\ pc' = [pc EXCEPT ![p] = "idle"]
           /\ files' = [files EXCEPT ![p] = {}] /\ hist' = [hist EXCEPT ![p] = {}]
           /\ UNCHANGED <<src, rev, want, data, n, cur, asked, acked>>
Next == Write \/ \E p \in Procs : Clean(p) \/ Create(p) \/ Copy(p) \/ Copied(p) \/ Record(p) \/ End(p)
                                  \/ Gc1(p) \/ Gc2(p) \/ Gc3(p) \/ Rm(p) \/ Kill(p)
Sym == Permutations(Procs)
Spec == Init /\ [][Next]_vars
\* a complete revision has the bytes the file had
Intact == \A r \in R : rev[r] = "done" => data[r] = want[r]
\* an acknowledged backup stays listed unless its removal was asked for
Listed2 == \A r \in acked : r \in asked \/ rev[r] = "done"
=============================================================================
