---------------------------------- MODULE SlotsMC ----------------------------------
(***************************************************************************)
(* Job loops and worker slots as designed: a loop sleeps until its time or *)
(* a request, takes a slot of its class (first come, first served), runs,  *)
(* gives the slot back whatever happens, plans again.  A changed limit     *)
(* brings new slots, a changed job is restarted, whatever it does.         *)
(* What this does is observed and fed to the automaton of Slots.tla, which *)
(* must accept all of it; and every waiting job is served.                 *)
(***************************************************************************)
EXTENDS Slots

CONSTANTS J, Limits, MaxTime, MaxReq, MaxLimit, MaxRestart, Fault
VARIABLES now, lp, cl, sem, m, rested, left, shown
vars == <<now, lp, cl, sem, m, rested, left, shown>>
Unit == 400
Sch == [x |-> [interval |-> 2 * Unit, off |-> 0]]
Last(late) == IF late THEN [x |-> now - 9 * Unit] ELSE [x |-> now]
Due(late) == Plan(Sch, 0, Last(late), TRUE, now, now, 1).time
(* observations, in order *)
RECURSIVE Feeds(_, _, _)
Feeds(c, mm, es) == IF es = <<>> THEN mm ELSE
  LET n == Feed(c, mm, Head(es)) IN Feeds(c, [n EXCEPT !.bad = @ \cup mm.bad], Tail(es))
See(es) == m' = LET r == Feeds(<<>>, m, es) IN r
St(n, late) == [k |-> "start", j |-> n, t |-> now, sched |-> Sch, spread |-> 0, slast |-> Last(late), shist |-> TRUE]
Ev(k, n) == [k |-> k, j |-> n, t |-> now]
Sem(k) == [lim |-> k, q |-> [c \in {"fast", "slow"} |-> <<>>], held |-> [c \in {"fast", "slow"} |-> {}]]
Loop0(due) == [ph |-> "sleep", next |-> due, ev |-> FALSE, ep |-> 1]

Init == /\ now = 0 /\ lp = [n \in J |-> Loop0(Plan(Sch, 0, [x |-> 0], TRUE, 0, 0, 1).time)]
        /\ cl \in [J -> {"fast", "slow"}]
        /\ \E k \in Limits : sem = <<Sem(k)>>
        /\ m = Feeds(<<>>, Start([limit |-> sem[1].lim]), [i \in 1..Cardinality(J) |->
             [k |-> "start", j |-> CHOOSE n \in J : Cardinality({o \in J : o <= n}) = i, t |-> 0, sched |-> Sch, spread |-> 0, slast |-> [x |-> 0], shist |-> TRUE]])
        /\ rested = FALSE /\ left = [req |-> MaxReq, lim |-> MaxLimit, re |-> MaxRestart] /\ shown = {}
Name(n) == n
Cur == Len(sem)
Full(e, c) == Cardinality(sem[e].held[c]) >= sem[e].lim
Backup(n) == [k |-> "backup", j |-> n, t |-> now, cls |-> cl[n], busy |-> 0, raised |-> FALSE]
Take(e, c, n) == [sem EXCEPT ![e].held[c] = @ \cup {n}, ![e].q[c] = SelectSeq(@, LAMBDA o : o # n)]
Free(n) == [e \in DOMAIN sem |-> [sem[e] EXCEPT !.held = [c \in DOMAIN @ |-> @[c] \ {n}], !.q = [c \in DOMAIN @ |-> SelectSeq(@[c], LAMBDA o : o # n)]]]
(* ---- what happens by itself *)
CanWake(n) == lp[n].ph = "sleep" /\ (lp[n].ev \/ lp[n].next <= now)
Wake(n) ==
  /\ CanWake(n)
  /\ LET c == cl[n] IN
     IF ~Full(Cur, c) /\ sem[Cur].q[c] = <<>>
     THEN /\ lp' = [lp EXCEPT ![n] = [@ EXCEPT !.ph = "run", !.ev = FALSE, !.ep = Cur]]
          /\ sem' = Take(Cur, c, n) /\ See(<<Backup(n)>>)
     ELSE /\ lp' = [lp EXCEPT ![n] = [@ EXCEPT !.ph = "queue", !.ev = FALSE, !.ep = Cur]]
          /\ sem' = [sem EXCEPT ![Cur].q[c] = IF Fault = "lifo" THEN <<n>> \o @ ELSE Append(@, n)] /\ UNCHANGED m
  /\ shown' = shown \ {n} /\ UNCHANGED <<now, cl, left, rested>>
CanGrant(e, c) == sem[e].q[c] # <<>> /\ ~Full(e, c)
Grant(e, c) ==
  /\ CanGrant(e, c)
  /\ LET n == Head(sem[e].q[c]) IN
     /\ sem' = Take(e, c, n) /\ lp' = [lp EXCEPT ![n].ph = "run"] /\ See(<<Backup(n)>>)
  /\ UNCHANGED <<now, cl, left, rested, shown>>
Busy == (\E n \in J : CanWake(n)) \/ (\E e \in DOMAIN sem : \E c \in {"fast", "slow"} : CanGrant(e, c))
Inner == (\E n \in J : Wake(n)) \/ (\E e \in DOMAIN sem : \E c \in {"fast", "slow"} : Grant(e, c))
Rest ==
  /\ ~Busy /\ ~rested /\ rested' = TRUE
  /\ LET new == {n \in J : lp[n].ph = "sleep"} \ shown
         order == CHOOSE f \in [1..Cardinality(new) -> new] : \A a, b \in DOMAIN f : a # b => f[a] # f[b]
     IN  /\ See([i \in DOMAIN order |-> [k |-> "plan", j |-> order[i], t |-> now, next |-> lp[order[i]].next]]
                \o <<[k |-> "idle", j |-> "", t |-> now, cls |-> cl]>>)
         /\ shown' = shown \cup new
  /\ UNCHANGED <<now, lp, cl, sem, left>>
(* ---- what may happen *)
Env == rested /\ rested' = FALSE
End(n) ==
  /\ Env /\ lp[n].ph = "run"
  /\ \E ok \in BOOLEAN :
       /\ See(<<IF ok THEN Ev("cend", n) ELSE [k |-> "bend", j |-> n, t |-> now, rc |-> 1]>>)
       /\ \E d \in {1, 2} : lp' = [lp EXCEPT ![n] = [@ EXCEPT !.ph = "sleep", !.next = now + d * Unit]]
       /\ sem' = IF Fault = "leak" /\ ~ok THEN sem ELSE Free(n)
       /\ IF ok THEN \E c \in {"fast", "slow"} : cl' = [cl EXCEPT ![n] = c] ELSE UNCHANGED cl
  /\ UNCHANGED <<now, left, shown>>
Request(n) ==
  /\ Env /\ left.req > 0 /\ left' = [left EXCEPT !.req = @ - 1]
  /\ lp' = [lp EXCEPT ![n].ev = TRUE] /\ See(<<Ev("run", n)>>)
  /\ UNCHANGED <<now, cl, sem, shown>>
Limit(k) ==
  /\ Env /\ left.lim > 0 /\ left' = [left EXCEPT !.lim = @ - 1] /\ k # sem[Cur].lim
  /\ sem' = Append(sem, Sem(k)) /\ See(<<[k |-> "limit", j |-> "", t |-> now, n |-> k]>>)
  /\ UNCHANGED <<now, cl, lp, shown>>
Restart(n) ==
  /\ Env /\ left.re > 0 /\ left' = [left EXCEPT !.re = @ - 1]
  /\ sem' = Free(n)
  /\ \E late \in BOOLEAN : lp' = [lp EXCEPT ![n] = [@ EXCEPT !.ph = "sleep", !.next = Due(late)]] /\ See(<<St(n, late)>>)
  /\ shown' = shown \ {n} /\ UNCHANGED <<now, cl>>
Tick == /\ Env /\ now < MaxTime * Unit /\ now' = now + Unit /\ UNCHANGED <<lp, cl, sem, m, left, shown>>
Next == Inner \/ Rest \/ Tick \/ (\E n \in J : End(n) \/ Request(n) \/ Restart(n)) \/ (\E k \in Limits : Limit(k))
Spec == Init /\ [][Next]_vars /\ WF_vars(Inner) /\ WF_vars(Rest) /\ \A n \in J : SF_vars(End(n))
View == <<now, lp, cl, sem, [m EXCEPT !.bad = {}], m.bad, rested, left, shown>>
(* ---- *)
Accepted == m.bad = {}
Bounded == \A e \in DOMAIN sem : \A c \in {"fast", "slow"} : Cardinality(sem[e].held[c]) <= sem[e].lim
OneRun == \A n \in J : Cardinality({e \in DOMAIN sem : \E c \in {"fast", "slow"} : n \in sem[e].held[c]}) <= 1
Exact == \A n \in J : (lp[n].ph = "run") <=> \E e \in DOMAIN sem : \E c \in {"fast", "slow"} : n \in sem[e].held[c]
Served == \A n \in J : lp[n].ph = "queue" ~> lp[n].ph # "queue"
=============================================================================
