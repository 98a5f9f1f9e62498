--------------------------------- MODULE LeaderMC ---------------------------------
(***************************************************************************)
(* Several servers share a job and decide with Leader's rules: nobody is   *)
(* left waiting for ever, nobody skips unless there is a new backup, and   *)
(* without trouble only those with the most backups make one.  Runs may    *)
(* fail and are repeated after a pause, servers may die.  Ties: a broken   *)
(* rule where a peer with as many backups leads.                           *)
(***************************************************************************)
EXTENDS Leader, FiniteSets, SequencesExt
CONSTANTS Servers, MaxCnt, MaxT, MaxFail, MaxDie, MaxRun, Ties

Interval == 86400
Ids == SetToSeq(Servers)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Delay(k) == 60 * (IF Pow2(k) < 360 THEN Pow2(k) ELSE 360)
VARIABLES now, st, fails, dies, made, top
vars == <<now, st, fails, dies, made, top>>
(* ph: wait, poll, run, done, dead; at: when something is to be done *)
Fresh(n) == [ph |-> "wait", at |-> 0, next |-> 0, due |-> 0, last |-> None, cnt |-> n, led |-> "", errs |-> 0, began |-> 0, skipped |-> FALSE]
Init == /\ now = 0 /\ fails = 0 /\ dies = 0 /\ made = 0
        /\ \E n \in [Servers -> 0..MaxCnt] :
             /\ st = [s \in Servers |-> Fresh(n[s])]
             /\ top = Cardinality({s \in Servers : \A r \in Servers : n[r] <= n[s]})
Others(s) == SelectSeq(Ids, LAMBDA r : r # s)
Answer(r) == IF st[r].ph = "dead" THEN [kind |-> "err"]
             ELSE [kind |-> "job", revs |-> st[r].cnt, last |-> st[r].last, running |-> TRUE,
                   next |-> IF st[r].ph \in {"wait", "done"} THEN st[r].next ELSE None]
Answers(s) == [r \in Servers \ {s} |-> Answer(r)]
Follow(s, led, v) ==
  st' = [st EXCEPT ![s] =
    CASE v = "self" -> [@ EXCEPT !.ph = "run", !.next = None, !.began = now]
      [] v = "skip" -> [@ EXCEPT !.ph = "done", !.next = Interval, !.skipped = TRUE, !.errs = 0]
      [] v = "wait" -> [@ EXCEPT !.ph = "poll", !.next = None, !.at = now + Poll, !.led = led]]
Own(s) == IF Ties THEN st[s].cnt - 1 ELSE st[s].cnt
Ask(s) == /\ st[s].ph = "wait" /\ st[s].at <= now
          /\ LET l == LeaderOf(Others(s), Answers(s), Own(s)) IN
             \E v \in (IF l = "" THEN {"self"} ELSE Verdicts(Answer(l), st[s].due)) : Follow(s, l, v)
          /\ UNCHANGED <<now, fails, dies, made, top>>
Look(s) == /\ st[s].ph = "poll" /\ st[s].at <= now
           /\ \E v \in Verdicts(Answer(st[s].led), st[s].due) : Follow(s, st[s].led, v)
           /\ UNCHANGED <<now, fails, dies, made, top>>
Done(s) == /\ st[s].ph = "run" /\ made' = made + 1
           /\ st' = [st EXCEPT ![s] = [@ EXCEPT !.ph = "done", !.next = Interval, !.last = st[s].began, !.cnt = @ + 1, !.errs = 0]]
           /\ UNCHANGED <<now, fails, dies, top>>
Fail(s) == /\ st[s].ph = "run" /\ fails < MaxFail /\ fails' = fails + 1
           /\ LET n == now + Delay(st[s].errs + 1) IN
              st' = [st EXCEPT ![s] = [@ EXCEPT !.ph = "wait", !.next = n, !.at = n, !.due = n, !.errs = @ + 1]]
           /\ UNCHANGED <<now, dies, made, top>>
Die(s) == /\ st[s].ph # "dead" /\ dies < MaxDie /\ dies' = dies + 1
          /\ st' = [st EXCEPT ![s].ph = "dead"]
          /\ UNCHANGED <<now, fails, made, top>>
(* a run takes no longer than MaxRun *)
Urgent(s) == (st[s].ph \in {"wait", "poll"} /\ st[s].at <= now) \/ (st[s].ph = "run" /\ now - st[s].began >= MaxRun)
Pass == /\ now < MaxT /\ \A s \in Servers : ~Urgent(s)
        /\ now' = now + 60 /\ UNCHANGED <<st, fails, dies, made, top>>
Next == Pass \/ \E s \in Servers : Ask(s) \/ Look(s) \/ Done(s) \/ Fail(s) \/ Die(s)
Spec == Init /\ [][Next]_vars

Alive(s) == st[s].ph # "dead"
(* whoever skipped knows of a backup *)
Justified == \A s \in Servers : st[s].skipped => \E r \in Servers : st[r].last # None
(* everybody is done in time, and there is a backup if anybody is left *)
Finished == now = MaxT => \A s \in Servers : st[s].ph \in {"done", "dead"}
Backed == now = MaxT /\ (\E s \in Servers : Alive(s)) => made > 0
(* no more work than necessary *)
Efficient == fails = 0 /\ dies = 0 => made <= top
=============================================================================
