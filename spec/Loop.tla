----------------------------------- MODULE Loop -----------------------------------
(***************************************************************************)
(* The life of one job: what may follow what.  Feed takes the state of     *)
(* this automaton and what was observed next, and yields the new state     *)
(* (with complaints in bad).                                               *)
(*                                                                         *)
(* Phases: new, wait (a plan exists), backup, after (backup done), gc, gone*)
(* (garbage collected), told (callback running), done, failed (run ended   *)
(* unsuccessfully), stopped.                                               *)
(* Observations (times in seconds): start, plan [next, tags], run, backup  *)
(* [tags, left, fresh, raised, busy], bend [rc], pull [peer], push [rev],  *)
(* gc [raised, stale, pending], gend, cb [raised, told, disk], cend, lock, *)
(* unlock, end.  Those which may be followed by planning carry last and    *)
(* hist: what the repository holds then.                                   *)
(***************************************************************************)
EXTENDS Sched

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
(* the pause after the k-th failure in a row *)
Delay(k) == 60 * (IF k >= 9 THEN 360 ELSE IF Pow2(k) < 360 THEN Pow2(k) ELSE 360)
Slack == 60
If(b, n) == IF b THEN {n} ELSE {}
SetOf(q) == {q[j] : j \in DOMAIN q}

Start(c) == [ph |-> "new", n |-> 0, due |-> 0, since |-> 0, tags |-> {}, req |-> "no", reqt |-> 0, reqn |-> 0, locked |-> FALSE, waslocked |-> FALSE,
             pulled |-> {}, pushed |-> {}, last |-> <<>>, hist |-> FALSE, t |-> 0, disk |-> <<>>, bad |-> {}]
(* plans for a job whose repository holds last, hist *)
Planned(c, last, hist, now) == Plan(c.sched, c.spread, last, hist, now, now, 1)
Basis(m, e) == [m EXCEPT !.last = e.last, !.hist = e.hist, !.t = e.t]
Run0(m) == [m EXCEPT !.pulled = {}, !.pushed = {}, !.waslocked = m.locked]

(* A new plan: what became of the run before it? *)
Succeeded(c, m) == m.ph \in {"new", "done"} \/ (m.ph = "gone" /\ ~c.cbconf)
Woken(m, t) == m.due <= t \/ m.req # "no"
Failed(m, t) ==
  \/ m.ph = "failed"
  \/ m.waslocked /\ m.ph = "after"
  \/ m.ph = "wait" /\ (m.waslocked \/ m.locked) /\ Woken(m, t)
(* k: how many failures in a row there were *)
PlanOk(c, e, k) ==
  LET p == Planned(c, e.last, e.hist, e.t) IN
  /\ SetOf(e.tags) = p.tags
  /\ IF k = 0 THEN e.next = p.time ELSE e.next >= e.t + Delay(k) /\ e.next <= e.t + Delay(k) + Slack
OnPlan(c, m, e) ==
  LET g == SetOf(e.tags)
      p == Planned(c, e.last, e.hist, e.t)
      k == IF Succeeded(c, m) THEN 0 ELSE m.n + 1
      known == Succeeded(c, m) \/ Failed(m, e.t)
      \* one more run which failed at once, unseen
      hidden == m.locked /\ m.ph # "wait" /\ (m.req # "no" \/ (k = 0 /\ p.time <= e.t))
      good0 == known /\ PlanOk(c, e, k)
      good1 == known /\ hidden /\ PlanOk(c, e, k + 1)
      what == IF ~known THEN (IF m.ph = "wait" THEN {"planned-without-running"} ELSE {"run-not-completed"})
              ELSE IF g # p.tags THEN {"wrong-tags-planned"}
              ELSE IF k = 0 THEN {"wrong-time-after-success"} ELSE {"wrong-pause-after-failure"}
  IN  [m EXCEPT !.ph = "wait", !.due = e.next, !.since = e.t, !.tags = g,
                !.n = IF good0 \/ ~good1 THEN k ELSE k + 1,
                \* the failed run may have been this request's
                !.req = IF m.req # "no" /\ ((m.ph = "wait" /\ (m.due <= e.t \/ e.t = m.reqn)) \/ (good1 /\ ~good0 /\ m.reqn = e.t)) THEN "maybe"
                        ELSE IF m.req # "no" /\ (m.ph = "wait" \/ (good1 /\ ~good0)) THEN "no"
                        ELSE IF m.req # "no" /\ good1 THEN "maybe" ELSE @,
                !.waslocked = m.locked, !.bad = IF good0 \/ good1 THEN {} ELSE what]

(* A run which starts with making a backup *)
OnBackup(c, m0, e) ==
  LET \* planned and due at once, unseen
      sudden == m0.ph \in {"new", "done", "failed"} \/ (m0.ph = "gone" /\ ~c.cbconf) \/ (m0.ph = "after" /\ m0.waslocked)
      p == Planned(c, m0.last, m0.hist, m0.t)
      m == IF ~sudden THEN m0
           ELSE [m0 EXCEPT !.ph = "wait", !.n = IF Succeeded(c, m0) THEN 0 ELSE @ + 1, !.tags = p.tags, !.since = m0.t,
                           !.due = IF Succeeded(c, m0) THEN p.time ELSE m0.t + Delay(m0.n + 1)]
      base == IF m.req = "no" THEN m.due ELSE IF m.req = "maybe" THEN m.due
              ELSE LET r == IF m.reqt > m.since THEN m.reqt ELSE m.since IN IF r < m.due THEN r ELSE m.due
  IN  [Run0(m) EXCEPT
        !.ph = IF e.raised THEN "failed" ELSE "backup",
        !.req = IF m.req = "no" THEN "no" ELSE IF m.reqn >= e.t \/ (m.due <= e.t /\ m.req = "maybe") THEN "maybe" ELSE "no",
        !.last = e.last, !.hist = e.hist, !.t = e.t,
        !.bad = If(m.ph # "wait", "overlapping-run")
                \cup If(m.ph = "wait" /\ m.due > e.t /\ m.req = "no", "too-early")
                \cup If(m.ph = "wait" /\ e.t > base + Slack /\ ~c.busy, "too-late")
                \cup If(m.ph = "wait" /\ SetOf(e.tags) # m.tags, "wrong-tags")
                \cup If(e.left > 0, "leftovers-not-removed")
                \cup If(~e.fresh, "no-new-revision")
                \cup If(e.busy > 0, "runs-overlap")]

Feed(c, m0, e) ==
  LET m == [m0 EXCEPT !.bad = {}]
      Off(ph) == If(m.ph = "failed", "goes-on-after-failure") \cup If(m.ph # "failed" /\ m.ph \notin ph, "out-of-order")
  IN
  CASE e.k = "start" -> [Basis(Start(c), e) EXCEPT !.locked = m.locked]
    [] e.k = "plan" -> OnPlan(c, m, e)
    [] e.k = "vanish" -> Basis(m, e)
    \* a run which failed at once in this instant may have been this request's
    [] e.k = "run" -> [m EXCEPT !.req = IF m.ph = "wait" /\ m.locked /\ m.since = e.t THEN "maybe" ELSE "yes", !.reqt = IF m.req = "yes" THEN @ ELSE e.t, !.reqn = e.t]
    [] e.k = "backup" -> OnBackup(c, m, e)
    [] e.k = "bend" -> [Basis(m, e) EXCEPT !.ph = IF e.rc = 0 THEN "after" ELSE "failed", !.waslocked = @ \/ m.locked]
    [] e.k = "pull" -> [m EXCEPT !.pulled = @ \cup {e.peer}, !.bad = Off({"after"}) \cup If(m.pushed # {}, "pulled-after-pushing")]
    [] e.k = "push" -> [m EXCEPT !.pushed = @ \cup {e.rev}, !.bad = Off({"after"}) \cup If(m.pulled # SetOf(c.peers), "pushed-before-pulling")]
    [] e.k = "gc" -> [Basis(m, e) EXCEPT !.ph = IF e.raised THEN "failed" ELSE "gc", !.disk = e.disk,
                        !.bad = Off({"after"}) \cup If(m.pulled # SetOf(c.peers), "not-synchronized")
                                \cup If(e.stale > 0, "not-expired") \cup If(\E u \in SetOf(e.pending) : u \notin m.pushed, "not-pushed")]
    [] e.k = "gend" -> [Basis(m, e) EXCEPT !.ph = "gone"]
    [] e.k = "cb" -> [Basis(m, e) EXCEPT !.ph = IF e.raised THEN "failed" ELSE "told",
                        !.bad = Off({"gone"}) \cup If(~c.cbconf, "unwanted-callback") \cup If(~e.raised /\ e.told # e.disk /\ e.told # m.disk, "wrong-history-reported")]
    [] e.k = "cend" -> [Basis(m, e) EXCEPT !.ph = "done"]
    [] e.k = "lock" -> [m EXCEPT !.locked = TRUE, !.waslocked = TRUE]
    [] e.k = "unlock" -> [m EXCEPT !.locked = FALSE]
    [] e.k = "end" -> [m EXCEPT !.bad =
                        If(m.ph = "wait" /\ ~c.busy /\ (m.due + Slack < e.t \/ (m.req = "yes" /\ m.reqt + Slack < e.t)), "run-missed")
                        \cup If(m.ph \notin {"wait", "backup", "gc", "told"} /\ m.t + Slack < e.t, "gave-up")]
    [] e.k = "runaway" -> [m EXCEPT !.bad = {"runs-without-end"}]
    [] e.k = "run-refused" -> [m EXCEPT !.bad = {"request-refused"}]
    [] OTHER -> m
=============================================================================
