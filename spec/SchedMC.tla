-------------------------------- MODULE SchedMC --------------------------------
(* A job following the plan: every grid point of every tag is planned for    *)
(* exactly once, none is skipped, and missed tags are caught up.             *)
EXTENDS Sched
CONSTANTS Horizon, Q, Bug
VARIABLES now, sched, spread, last, hist, planned, start
vars == <<now, sched, spread, last, hist, planned, start>>

S(i, o) == [interval |-> i, off |-> o]
Scheds == {("a" :> S(2, 1)), ("a" :> S(3, 0)) @@ ("b" :> S(4, 2)), ("a" :> S(2, 1)) @@ ("b" :> S(6, 5)) @@ ("c" :> S(5, 4))}
(* as implemented: the number of the current interval, plus one *)
Algo(s, sp, t) ==
  LET p == sp % s.interval
      base == s.off + 60          \* seconds since the start of the calendar
      rel == t + base - (IF Bug = "nosub" THEN 0 ELSE p)
  IN  (rel \div s.interval + 1) * s.interval + p - base
(* base must be congruent to off *)
Ok60(s) == 60 % s.interval = 0

Init == /\ now \in 0..3 /\ sched \in Scheds /\ spread \in 0..13
        /\ last = <<>> /\ hist = FALSE /\ planned = {} /\ start = now
Advance ==   \* sleep until the planned time and make the backup, which may fail
  LET p == Plan(sched, spread, last, hist, now, now, Q) IN
  /\ now < Horizon
  /\ now' = p.time
  /\ planned' = planned \cup {<<g, p.time>> : g \in p.tags}
  /\ \E ok \in BOOLEAN :
       /\ last' = IF ok THEN [g \in p.tags |-> p.time] @@ last ELSE last
       /\ hist' = (hist \/ ok)
       /\ p.time > now \/ ok     \* a failed run is retried later (backoff)
  /\ UNCHANGED <<sched, spread, start>>
Next == Advance
Spec == Init /\ [][Next]_vars

AlgoRight == \A g \in DOMAIN sched : Ok60(sched[g]) => Algo(sched[g], spread, now) = NextGrid(sched[g], spread, now)
(* no grid point that has passed was skipped *)
NoneSkipped == \A g \in DOMAIN sched : \A t \in (start + 1)..now :
                 OnGrid(sched[g], spread, t) => <<g, t>> \in planned
(* a tag is planned off its grid only to catch up *)
Future == \A g \in DOMAIN sched : NextGrid(sched[g], spread, now) > now
          /\ NextGrid(sched[g], spread, now) <= now + sched[g].interval
CaughtUp == hist /\ Q = 0 =>
  LET p == Plan(sched, spread, last, hist, now, now, Q)
  IN  Missed(sched, last, now) # {} => p.time = now /\ p.tags = Missed(sched, last, now)
=============================================================================
