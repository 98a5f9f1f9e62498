----------------------------------- MODULE Slots -----------------------------------
(***************************************************************************)
(* Several jobs and a limited number of worker slots.  Every set of slots  *)
(* (one per class, fast and slow) belongs to an epoch: a changed limit     *)
(* brings new sets, who runs or waits keeps the old ones.                  *)
(* m.j: job -> [due, req, again, run, cls, ep, since, over]: run: its run holds a *)
(* slot of class cls of epoch ep; since: waiting for one since then (Never:*)
(* not waiting); over: who started twice meanwhile.                        *)
(* Observations: start [sched, spread, slast, shist], gone, limit [n], plan [next], run, backup   *)
(* [cls, busy, raised], bend, cb [raised], cend, *term, idle [cls, cbconf].*)
(***************************************************************************)
EXTENDS Sched

Never == -1
If(b, n) == IF b THEN {n} ELSE {}
New(due) == [due |-> due, req |-> FALSE, again |-> FALSE, run |-> FALSE, cls |-> "slow", ep |-> 0, since |-> Never, wep |-> 0, over |-> <<>>]
Start(c) == [j |-> <<>>, ep |-> 1, limit |-> <<c.limit>>, bad |-> {}]
Set(m, n, r) == [m EXCEPT !.j = (n :> r) @@ @]
Has(m, n) == n \in DOMAIN m.j
Running(m, ep, cls) == {n \in DOMAIN m.j : m.j[n].run /\ m.j[n].ep = ep /\ m.j[n].cls = cls}
Wants(m, n, t) == ~m.j[n].run /\ (m.j[n].req \/ m.j[n].due <= t)
(* the run is over: there is no plan yet *)
Never2 == 999999999
Over(m, n) == IF Has(m, n) THEN Set(m, n, [m.j[n] EXCEPT !.run = FALSE, !.due = Never2, !.req = @ \/ m.j[n].again, !.again = FALSE]) ELSE m
OnBackup(c, m, e) ==
  IF ~Has(m, e.j) THEN [m EXCEPT !.bad = {"removed-job-runs"}]
  ELSE LET x == m.j[e.j]
           ep == IF x.since # Never THEN x.wep ELSE m.ep
           y == [x EXCEPT !.run = TRUE, !.cls = e.cls, !.ep = ep, !.since = Never, !.over = <<>>, !.req = FALSE, !.due = Never2]
           m2 == Set(m, e.j, y)
           \* those who wait for the same slots and were there before
           W == {n \in DOMAIN m.j \ {e.j} : m.j[n].since # Never /\ m.j[n].wep = ep /\ m.j[n].cls = e.cls}
           m3 == [m2 EXCEPT !.j = [n \in DOMAIN @ |-> IF n \in W THEN [@[n] EXCEPT !.over = Append(@, e.j)] ELSE @[n]]]
       IN  [m3 EXCEPT !.bad = If(e.busy > 0, "two-runs-of-a-job")
              \cup If(Cardinality(Running(m2, ep, e.cls)) > m.limit[ep], "too-many-workers")
              \cup If(\E n \in W : \E a, b \in DOMAIN m3.j[n].over : a # b /\ m3.j[n].over[a] = m3.j[n].over[b], "starved")]
(* nothing is left to do now *)
OnIdle(c, m, e) ==
  LET W == {n \in DOMAIN m.j : Wants(m, n, e.t)}
      Cls(n) == IF n \in DOMAIN e.cls THEN e.cls[n] ELSE "slow"
      Ep(n) == IF m.j[n].since # Never THEN m.j[n].wep ELSE m.ep
  IN  [m EXCEPT !.j = [n \in DOMAIN @ |-> IF n \in W THEN [@[n] EXCEPT !.since = IF @ = Never THEN e.t ELSE @, !.wep = Ep(n), !.cls = Cls(n)]
                                          ELSE IF @[n].since # Never THEN [@[n] EXCEPT !.since = Never, !.over = <<>>] ELSE @[n]],
                !.bad = If(\E n \in W : Cardinality(Running(m, Ep(n), Cls(n))) < m.limit[Ep(n)], "idle-worker")]
Feed(c, m0, e) ==
  LET m == [m0 EXCEPT !.bad = {}] IN
  \* a restarted job keeps what was asked for and not begun
  CASE e.k = "start" -> LET x == New(Plan(e.sched, e.spread, e.slast, e.shist, e.t, e.t, 1).time)
                        IN  Set(m, e.j, IF Has(m, e.j) THEN [x EXCEPT !.req = m.j[e.j].again \/ (m.j[e.j].req /\ m.j[e.j].since = Never)] ELSE x)
    [] e.k = "gone" -> [m EXCEPT !.j = [n \in DOMAIN @ \ {e.j} |-> @[n]]]
    [] e.k = "limit" -> [m EXCEPT !.ep = @ + 1, !.limit = Append(@, e.n)]
    \* a plan is only shown by who waits for its time: whatever was asked for has been tried
    [] e.k = "plan" -> IF Has(m, e.j) THEN Set(m, e.j, [m.j[e.j] EXCEPT !.due = e.next, !.run = FALSE, !.req = FALSE, !.again = FALSE]) ELSE m
    [] e.k = "run" -> IF Has(m, e.j) THEN Set(m, e.j, IF m.j[e.j].run \/ m.j[e.j].since # Never THEN [m.j[e.j] EXCEPT !.again = TRUE]
                                                         ELSE [m.j[e.j] EXCEPT !.req = TRUE]) ELSE m
    [] e.k = "backup" -> IF e.raised THEN Over(OnBackup(c, m, e), e.j) ELSE OnBackup(c, m, e)
    [] e.k = "bend" -> IF e.rc # 0 THEN Over(m, e.j) ELSE m
    [] e.k = "cb" -> IF e.raised THEN Over(m, e.j) ELSE m
    [] e.k = "cend" -> Over(m, e.j)
    [] e.k = "idle" -> OnIdle(c, m, e)
    [] e.k = "runaway" -> [m EXCEPT !.bad = {"runs-without-end"}]
    [] OTHER -> m
=============================================================================
