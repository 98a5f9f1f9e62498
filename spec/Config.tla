----------------------------------- MODULE Config -----------------------------------
(***************************************************************************)
(* What a (re)loaded configuration means for running jobs.                 *)
(* m.j: job -> [sched, spread, plan: its shown plan or None, live: running *)
(* programs, want: the plan expected of it at the next rest ([time |-> None] *)
(* : nothing particular), req: somebody asked for a run, again: for another,*)
(* busy: a run has begun, slot: it waits for a worker, src, sch: what its  *)
(* repository must say]; ghosts: programs which must be terminated now.    *)
(* Observations: start [sched, spread, slast, shist, src, sch], gone, reload [changed,      *)
(* gone, now: job -> [sched, spread, src, sch]], plan [next, tags], run, backup [raised,      *)
(* src, sch], bend, gc, gend, cb, cend [last, hist], bterm, gterm, cterm,  *)
(* applied [jobs, dead, listed, dirs, want, got], terminate, idle.         *)
(* m.up: daemons holding a base directory.  Observations of these: dstart  *)
(* [base, ok, refused, touched], dend [base, clean], dgone [base] (ended   *)
(* by itself).                                                             *)
(***************************************************************************)
EXTENDS Sched

None == -1
If(b, n) == IF b THEN {n} ELSE {}
SetOf(q) == {q[j] : j \in DOMAIN q}
Nothing == [time |-> None, tags |-> {}]
Start(c) == [j |-> <<>>, ghosts |-> {}, up |-> {}, bad |-> {}]
Has(m, n) == n \in DOMAIN m.j
Set(m, n, r) == [m EXCEPT !.j = (n :> r) @@ @]
New(x) == [sched |-> x.sched, spread |-> x.spread, src |-> x.src, sch |-> x.sch,
           plan |-> Nothing, live |-> {}, want |-> Nothing, req |-> FALSE, again |-> FALSE, busy |-> FALSE, slot |-> FALSE]
Planned(x, last, hist, t) == Plan(x.sched, x.spread, last, hist, t, t, 1)
(* it plans now, from what the repository holds *)
Plans(x, last, hist, t) ==
  LET p == Planned(x, last, hist, t) IN [x EXCEPT !.plan = Nothing, !.busy = FALSE, !.slot = FALSE, !.again = FALSE, !.req = @ \/ x.again, !.want = IF p.time > t THEN p ELSE Nothing]
OnStart(m, e) ==
  LET x == New(e)
      old == IF Has(m, e.j) THEN m.j[e.j] ELSE x
      \* what was asked for and not begun is kept
      y == [x EXCEPT !.req = old.req /\ ~old.slot, !.again = old.again, !.live = old.live]
  IN  Set(m, e.j, Plans(y, e.slast, e.shist, e.t))
OnReload(m, e) ==
  LET G == SetOf(e.gone) \cup SetOf(e.changed)
      K == {<<n, p>> : n \in DOMAIN m.j \cap G, p \in {"backup", "gc", "callback"}}
      kill == {k \in K : k[2] \in m.j[k[1]].live}
  IN  [m EXCEPT !.ghosts = kill,
                \* a schedule redefined is used from the next plan on
                !.j = [n \in DOMAIN @ |-> IF n \in DOMAIN e.now THEN [@[n] EXCEPT !.sched = e.now[n].sched, !.spread = e.now[n].spread, !.src = e.now[n].src, !.sch = e.now[n].sch,
                                                                      !.live = IF n \in G THEN {} ELSE @]
                                          ELSE @[n]],
                !.bad = {}]
Begin(m, e, p) ==
  IF ~Has(m, e.j) THEN [m EXCEPT !.bad = {"removed-job-acts"}]
  ELSE LET x == m.j[e.j] IN Set(m, e.j, [x EXCEPT !.live = IF e.raised THEN @ ELSE @ \cup {p}, !.plan = Nothing, !.want = Nothing, !.busy = TRUE])
Done(m, e, p) == IF Has(m, e.j) THEN Set(m, e.j, [m.j[e.j] EXCEPT !.live = @ \ {p}]) ELSE m
Term(m, e, p) ==
  IF <<e.j, p>> \in m.ghosts THEN [m EXCEPT !.ghosts = @ \ {<<e.j, p>>}]
  ELSE [m EXCEPT !.bad = {"undisturbed-job-interrupted"}]
OnBackup(m, e) ==
  LET m2 == Begin(m, e, "backup") IN
  IF ~Has(m, e.j) THEN m2
  ELSE LET x == m.j[e.j]
           early == ~x.req /\ ((x.plan.time # None /\ x.plan.time > e.t) \/ (x.plan.time = None /\ x.want.time # None))
       IN  [m2 EXCEPT !.j[e.j].req = FALSE, !.j[e.j].slot = FALSE, !.j[e.j].again = @ /\ ~x.busy,
                      !.bad = @ \cup If(early, "runs-before-its-time") \cup If(e.src # x.src, "wrong-source-stored") \cup If(e.sch # x.sch, "wrong-schedule-stored")]
(* the run ended badly: a pause is planned, or what was asked for meanwhile is begun *)
Fail(m, n) == IF Has(m, n) THEN Set(m, n, [m.j[n] EXCEPT !.busy = FALSE, !.req = @ \/ m.j[n].again, !.again = FALSE]) ELSE m
OnPlan(m, e) ==
  IF ~Has(m, e.j) THEN [m EXCEPT !.bad = {"removed-job-plans"}]
  ELSE LET x == m.j[e.j]
           p == [time |-> e.next, tags |-> SetOf(e.tags)]
           moved == x.plan.time > e.t /\ ~x.req /\ ~x.busy /\ x.plan # p
           wrong == x.want.time # None /\ ~x.req /\ x.want # p
       IN  [Set(m, e.j, [x EXCEPT !.plan = p, !.want = Nothing, !.req = FALSE, !.again = FALSE, !.busy = FALSE, !.slot = FALSE])
             EXCEPT !.bad = If(moved, "plan-changed-while-waiting") \cup If(wrong, "plan-not-as-configured")]
OnIdle(m, e) ==
  [m EXCEPT !.bad = If(m.ghosts # {}, "stopped-job-keeps-working")
                    \cup If(\E n \in DOMAIN m.j : m.j[n].want.time > e.t /\ ~m.j[n].req, "job-not-planned"),
            !.j = [n \in DOMAIN @ |-> LET x == @[n] IN [x EXCEPT !.slot = ~x.busy /\ (x.req \/ x.plan.time <= e.t)]],
            !.ghosts = {}]
OnApplied(m, e) ==
  [m EXCEPT !.bad = If(SetOf(e.jobs) # SetOf(e.listed) \/ Len(e.jobs) # Len(e.listed), "wrong-jobs-offered")
                    \cup If(SetOf(e.dead) # SetOf(e.dirs) \ SetOf(e.listed), "wrong-dead-backups-offered")
                    \cup If(e.got # e.want, "stored-configuration-differs")]
OnDaemon(m, e) ==
  LET held == \E u \in m.up : u[2] = e.base IN
  CASE e.k = "dstart" -> [m EXCEPT !.up = IF e.ok THEN @ \cup {<<e.j, e.base>>} ELSE @,
                                   !.bad = If(e.ok /\ held, "second-daemon") \cup If(~e.ok /\ ~held, "daemon-does-not-start")
                                           \cup If(~e.ok /\ held /\ ~e.refused, "wrong-exit-status") \cup If(e.touched, "refused-daemon-changed-something")]
    [] e.k = "dend" -> [m EXCEPT !.up = @ \ {<<e.j, e.base>>}, !.bad = If(~e.clean, "does-not-end-cleanly")]
    [] OTHER -> [m EXCEPT !.up = @ \ {<<e.j, e.base>>}, !.bad = {"daemon-gives-up"}]
Feed(c, m0, e) ==
  LET m == [m0 EXCEPT !.bad = {}] IN
  CASE e.k = "start" -> OnStart(m, e)
    [] e.k = "reload" -> OnReload(m, e)
    [] e.k = "gone" -> [m EXCEPT !.j = [n \in DOMAIN @ \ {e.j} |-> @[n]]]
    [] e.k = "run" -> IF Has(m, e.j) THEN Set(m, e.j, IF m.j[e.j].busy \/ m.j[e.j].slot THEN [m.j[e.j] EXCEPT !.again = TRUE] ELSE [m.j[e.j] EXCEPT !.req = TRUE]) ELSE m
    [] e.k = "backup" -> IF e.raised THEN Fail(OnBackup(m, e), e.j) ELSE OnBackup(m, e)
    [] e.k = "bend" -> IF e.rc # 0 THEN Fail(Done(m, e, "backup"), e.j) ELSE Done(m, e, "backup")
    [] e.k = "gc" -> Begin(m, e, "gc")
    [] e.k = "gend" -> Done(m, e, "gc")
    [] e.k = "cb" -> IF e.raised THEN Fail(Begin(m, e, "callback"), e.j) ELSE Begin(m, e, "callback")
    \* the run was a success
    [] e.k = "cend" -> LET m2 == Done(m, e, "callback") IN
                       IF Has(m2, e.j) THEN Set(m2, e.j, Plans(m2.j[e.j], e.last, e.hist, e.t)) ELSE m2
    [] e.k = "bterm" -> Term(m, e, "backup")
    [] e.k = "gterm" -> Term(m, e, "gc")
    [] e.k = "cterm" -> Term(m, e, "callback")
    [] e.k = "plan" -> OnPlan(m, e)
    [] e.k \in {"dstart", "dend", "dgone"} -> OnDaemon(m, e)
    [] e.k = "applied" -> OnApplied(m, e)
    [] e.k = "idle" -> OnIdle(m, e)
    [] e.k = "terminate" -> [m EXCEPT !.bad = {"daemon-gives-up"}]
    [] e.k = "runaway" -> [m EXCEPT !.bad = {"runs-without-end"}]
    [] OTHER -> m
=============================================================================
