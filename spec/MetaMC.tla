-------------------------------- MODULE MetaMC --------------------------------
(***************************************************************************)
(* The replacement algorithm: every version is written to a file of its    *)
(* own (an inode), completed, made durable and then given the final name.  *)
(* Writers may fail (and clean up) or be killed (and leave their temporary *)
(* file) at any step; the machine may lose power, which keeps only what    *)
(* was made durable, while names may survive in either state.              *)
(* Readers open the file at any moment and read it block by block.         *)
(* Strategy "inplace" (and "nosync") exist to show what goes wrong.        *)
(***************************************************************************)
EXTENDS Meta

CONSTANTS Writers, Blocks, Strategy
VARIABLES inode, cur, prev, pc, rd, lost
vars == <<inode, cur, prev, pc, rd, lost>>

\* inodes: 0 = the old file, w = the file of writer w
Inodes == {0} \cup Writers
Full(k) == [v |-> k, n |-> Blocks, s |-> Blocks]
Init ==
  /\ inode = [k \in Inodes |-> IF k = 0 THEN Full(0) ELSE [v |-> k, n |-> 0, s |-> 0]]
  /\ cur = 0 /\ prev = 0
  /\ pc = [w \in Writers |-> "start"]
  /\ rd = [ino |-> -1, n |-> 0, v |-> <<>>]
  /\ lost = FALSE
Target(w) == IF Strategy = "inplace" THEN cur ELSE w
Start(w) ==
  /\ pc[w] = "start" /\ ~lost
  /\ pc' = [pc EXCEPT ![w] = "write"]
  /\ inode' = [inode EXCEPT ![Target(w)] = [v |-> w, n |-> 0, s |-> 0]]
  /\ UNCHANGED <<cur, prev, rd, lost>>
WriteBlock(w) ==
  /\ pc[w] = "write" /\ inode[Target(w)].n < Blocks
  /\ inode' = [inode EXCEPT ![Target(w)].n = @ + 1, ![Target(w)].v = w]
  /\ UNCHANGED <<cur, prev, pc, rd, lost>>
Sync(w) ==
  /\ pc[w] = "write" /\ inode[Target(w)].n = Blocks
  /\ pc' = [pc EXCEPT ![w] = "rename"]
  /\ inode' = IF Strategy = "nosync" THEN inode ELSE [inode EXCEPT ![Target(w)].s = Blocks]
  /\ UNCHANGED <<cur, prev, rd, lost>>
Rename(w) ==
  /\ pc[w] = "rename"
  /\ cur' = Target(w) /\ prev' = cur
  /\ pc' = [pc EXCEPT ![w] = "ok"]
  /\ UNCHANGED <<inode, rd, lost>>
\* raises somewhere: the temporary file goes; or it is killed and stays
Stop(w) ==
  /\ pc[w] \in {"write", "rename"}
  /\ \E e \in {"failed", "killed"} : pc' = [pc EXCEPT ![w] = e]
  /\ UNCHANGED <<inode, cur, prev, rd, lost>>
PowerLoss ==
  /\ ~lost /\ lost' = TRUE
  /\ pc' = [w \in Writers |-> IF pc[w] \in {"ok", "failed"} THEN pc[w] ELSE "killed"]
  /\ inode' = [k \in Inodes |-> [inode[k] EXCEPT !.n = inode[k].s]]
  /\ cur' \in {cur, prev} /\ prev' = cur'
  /\ rd' = [ino |-> -1, n |-> 0, v |-> <<>>]
Open == /\ rd.ino = -1
        /\ rd' = [ino |-> cur, n |-> 0, v |-> <<>>] /\ UNCHANGED <<inode, cur, prev, pc, lost>>
ReadBlock == /\ rd.ino # -1 /\ rd.n < Blocks
             /\ rd' = IF rd.n < inode[rd.ino].n
                      THEN [rd EXCEPT !.n = @ + 1, !.v = Append(@, inode[rd.ino].v)]
                      ELSE [rd EXCEPT !.n = Blocks, !.v = Append(@, -1)]  \* end of file
             /\ UNCHANGED <<inode, cur, prev, pc, lost>>
Close == /\ rd.ino # -1 /\ rd.n = Blocks
         /\ rd' = [ino |-> -1, n |-> 0, v |-> <<>>] /\ UNCHANGED <<inode, cur, prev, pc, lost>>
Next == \/ \E w \in Writers : Start(w) \/ WriteBlock(w) \/ Sync(w) \/ Rename(w) \/ Stop(w)
        \/ PowerLoss \/ Open \/ ReadBlock \/ Close
Spec == Init /\ [][Next]_vars

\* whatever is read is one complete version
Complete == rd.n = Blocks => /\ Len(rd.v) = Blocks
                             /\ \A a, b \in DOMAIN rd.v : rd.v[a] = rd.v[b]
                             /\ -1 \notin Elems(rd.v)
Visible == inode[cur].n = Blocks /\ inode[cur].s = Blocks
\* a version is only replaced by one whose writer succeeded
Versions == cur = 0 \/ pc[cur] = "ok" \/ lost
=============================================================================
