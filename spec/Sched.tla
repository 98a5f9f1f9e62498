--------------------------------- MODULE Sched ---------------------------------
(***************************************************************************)
(* When the next backup is due.  Times are in quarter seconds from an      *)
(* origin; tag g's grid are the times t with (t + off - spread) a multiple *)
(* of its interval (off: distance of the origin from the calendar's start, *)
(* modulo the interval).                                                   *)
(* sched: tag -> [interval, off], last: tag -> time of the newest complete *)
(* revision with the tag (tags without any are missing), hist: whether     *)
(* there is any revision.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

OnGrid(s, spread, t) == (t + s.off - spread) % s.interval = 0
(* the first grid point after now *)
NextGrid(s, spread, now) == now + s.interval - ((now + s.off - spread) % s.interval)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
IdealTime(sched, spread, now) == MinOf({NextGrid(sched[g], spread, now) : g \in DOMAIN sched})
IdealTags(sched, spread, now) ==
  {g \in DOMAIN sched : OnGrid(sched[g], spread, IdealTime(sched, spread, now))}
Missed(sched, last, now) ==
  {g \in DOMAIN sched : g \notin DOMAIN last \/ last[g] <= now - sched[g].interval}
Grace(q) == 300 * q
(* relative: the time to plan for; now: the current time *)
Plan(sched, spread, last, hist, relative, now, q) ==
  LET t == IdealTime(sched, spread, relative)
      m == Missed(sched, last, now)
  IN  IF m # {} /\ hist /\ t > now + Grace(q) THEN [time |-> now, tags |-> m]
      ELSE [time |-> t, tags |-> IdealTags(sched, spread, relative) \cup m]
=============================================================================
