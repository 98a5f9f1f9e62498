-------------------------------- MODULE Pending --------------------------------
(***************************************************************************)
(* Pending purges: what one round of the daemon does to one entry of the   *)
(* base directory.                                                         *)
(*  d: [dir, active, marker, loads (configuration readable and program     *)
(*   startable), ok (its collection can succeed), late (requested again    *)
(*   while the collection was running)]                                    *)
(*  o: [ran: collections started, marker, garbage: unreferenced pieces     *)
(*   left, same: nothing else changed]                                     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
Due(d) == d.dir /\ ~d.active /\ d.marker
OutcomeBad(d, o) ==
  (IF o.ran > (IF Due(d) THEN 1 ELSE 0) THEN {"collected-without-request"} ELSE {})
  \cup (IF Due(d) /\ d.loads /\ o.ran = 0 THEN {"not-collected"} ELSE {})
  \cup (IF ~o.same THEN {"damaged"} ELSE {})
  \cup (IF Due(d) /\ d.ok
        THEN IF d.late THEN (IF ~o.marker /\ o.garbage > 0 THEN {"request-lost"} ELSE {})
             ELSE (IF o.marker THEN {"not-cleared"} ELSE {}) \cup (IF o.garbage > 0 THEN {"garbage-left"} ELSE {})
        ELSE (IF o.marker # d.marker THEN {"marker-changed"} ELSE {})
             \cup (IF o.garbage # d.garbage THEN {"collected-wrongly"} ELSE {}))
=============================================================================
