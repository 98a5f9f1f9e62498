--------------------------------- MODULE Purge ---------------------------------
(***************************************************************************)
(* The clean-up of old backups.  A tree is a function from nodes to        *)
(*  [parent (0: directly below the base directory), kind dir/file/link,    *)
(*   recent: changed within the last 93 days].  Links have no children:    *)
(* whatever they point to is not part of the tree.                         *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

RECURSIVE Up(_, _)
\* the entry directly below the base directory that holds n
Up(T, n) == IF T[n].parent = 0 THEN n ELSE Up(T, T[n].parent)
Sub(T, n) == {m \in DOMAIN T : Up(T, m) = n}
Old(T) == {n \in DOMAIN T : T[n].parent = 0 /\ T[n].kind = "dir" /\ \A m \in Sub(T, n) : ~T[m].recent}
Purged(T) == UNION {Sub(T, n) : n \in Old(T)}

\* problems of one round: before T, gone: nodes that disappeared, changed: other
\* differences found, failed: something went wrong on purpose in this round
RoundBad(T, gone, changed, failed) ==
  (IF gone \ Purged(T) # {} THEN {"deleted-recent"} ELSE {})
  \cup (IF ~failed /\ Purged(T) \ gone # {} THEN {"not-deleted"} ELSE {})
  \cup (IF changed THEN {"changed"} ELSE {})
=============================================================================
