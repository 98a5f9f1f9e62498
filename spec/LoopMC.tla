---------------------------------- MODULE LoopMC ----------------------------------
(***************************************************************************)
(* The job loop itself (Job.run_forever), composed with the automaton that *)
(* judges the real one (Loop.Feed): the automaton must accept everything   *)
(* the loop does (Accepted), and the loop must have the properties we want *)
(* from it.  One job, a lock others may take, requests, failures at every  *)
(* step, time which passes in steps.                                       *)
(* Broken designs: ClearLate forgets requests made during a run, NoReset   *)
(* keeps the error count after a success, Careless goes on after a failed  *)
(* backup, Forever doubles the pause without bound.                        *)
(***************************************************************************)
EXTENDS Loop, SequencesExt
CONSTANTS MaxT, MaxReq, MaxLock, MaxRun, Step, ClearLate, NoReset, Careless, Forever

C == [sched |-> [x |-> [interval |-> 7200, off |-> 0]], spread |-> 100, peers |-> <<>>, cbconf |-> TRUE, busy |-> FALSE]
Start0 == -20000
VARIABLES now, ph, err, due, tags, shown, req, locked, last, nreq, nlock, nrun, m, alarms
(* what the user cares about: *)
VARIABLES owed,   \* requests not yet served
          okbak,  \* the current run's backup succeeded
          pause   \* length of the current pause, 0: by schedule
vars == <<now, ph, err, due, tags, shown, req, locked, last, nreq, nlock, nrun, m, alarms, owed, okbak, pause>>

Ev(k, more) == [k |-> k, t |-> now] @@ more
Sum(l) == [last |-> [x |-> l], hist |-> TRUE]
(* observe several things in a row *)
RECURSIVE FeedAll(_, _, _)
FeedAll(mm, es, bad) == IF es = <<>> THEN [m |-> mm, bad |-> bad]
                        ELSE LET n == Feed(C, mm, Head(es)) IN FeedAll(n, Tail(es), bad \cup n.bad)
See(es) == LET r == FeedAll(m, es, {}) IN m' = r.m /\ alarms' = alarms \cup r.bad
Quiet == UNCHANGED <<m, alarms>>

(* the top of the loop: e errors in a row, last backup l *)
Top(e, l) ==
  LET p == Planned(C, [x |-> l], TRUE, now)
      d == IF Forever THEN 60 * Pow2(e) ELSE Delay(e) IN
  /\ ph' = "wait" /\ err' = e /\ tags' = p.tags /\ shown' = FALSE
  /\ due' = (IF e = 0 THEN p.time ELSE now + d)
  /\ pause' = (IF e = 0 THEN 0 ELSE d)
Fail(l) == Top(err + 1, l)

Init == /\ now = 0 /\ req = FALSE /\ locked = FALSE /\ last \in {Start0, -100} /\ nreq = 0 /\ nlock = 0 /\ nrun = 0
        /\ LET p == Planned(C, [x |-> last], TRUE, 0) IN due = p.time /\ tags = p.tags
        /\ ph = "wait" /\ err = 0 /\ shown = FALSE /\ pause = 0 /\ owed = 0 /\ okbak = FALSE
        /\ m = Feed(C, Start(C), [k |-> "start", t |-> 0] @@ Sum(last)) /\ alarms = {}

Due == ph = "wait" /\ (req \/ due <= now)
Wake == /\ Due /\ nrun < MaxRun
        /\ nrun' = nrun + 1
        /\ req' = (IF ClearLate THEN req ELSE FALSE)
        /\ okbak' = FALSE
        /\ UNCHANGED <<now, locked, last, nreq, nlock>>
        /\ \/ /\ locked /\ Fail(last) /\ Quiet /\ owed' = 0   \* nothing was seen of this run
           \/ /\ ~locked
              /\ \E raised \in BOOLEAN :
                   /\ See(<<Ev("backup", [raised |-> raised, tags |-> SetToSeq(tags), left |-> 0, fresh |-> TRUE, busy |-> 0] @@ Sum(last))>>)
                   /\ IF raised THEN Fail(last) ELSE ph' = "backup" /\ UNCHANGED <<err, due, tags, shown, pause>>
              /\ owed' = 0
(* up to the garbage collection *)
Gc(l) == Ev("gc", [raised |-> FALSE, disk |-> <<>>, stale |-> 0, pending |-> <<>>] @@ Sum(l))
BackupEnds == /\ ph = "backup"
              /\ UNCHANGED <<now, req, locked, nreq, nlock, nrun, owed>>
              /\ \/ /\ last' = last /\ okbak' = FALSE
                    /\ IF Careless /\ ~locked
                       THEN ph' = "gc" /\ See(<<Ev("bend", [rc |-> 1] @@ Sum(last)), Gc(last)>>) /\ UNCHANGED <<err, due, tags, shown, pause>>
                       ELSE Fail(last) /\ See(<<Ev("bend", [rc |-> 1] @@ Sum(last))>>)
                 \/ /\ last' = now /\ okbak' = TRUE
                    /\ IF locked THEN Fail(now) /\ See(<<Ev("bend", [rc |-> 0] @@ Sum(now))>>)
                       ELSE /\ ph' = "gc" /\ See(<<Ev("bend", [rc |-> 0] @@ Sum(now)), Gc(now)>>)
                            /\ UNCHANGED <<err, due, tags, shown, pause>>
GcEnds == /\ ph = "gc" /\ UNCHANGED <<now, locked, last, nreq, nlock, nrun, owed, okbak, req>>
          /\ \E raised \in BOOLEAN :
               /\ See(<<Ev("gend", [rc |-> 0] @@ Sum(last)), Ev("cb", [raised |-> raised, told |-> <<>>, disk |-> <<>>] @@ Sum(last))>>)
               /\ IF raised THEN Fail(last) ELSE ph' = "told" /\ UNCHANGED <<err, due, tags, shown, pause>>
CallbackEnds == /\ ph = "told" /\ UNCHANGED <<now, locked, last, nreq, nlock, nrun, owed, okbak>>
                /\ req' = (IF ClearLate THEN FALSE ELSE req)
                /\ See(<<Ev("cend", [rc |-> 0] @@ Sum(last))>>)
                /\ IF NoReset /\ err > 0 THEN Top(err, last) ELSE Top(0, last)
Settled == ~Due /\ (ph # "wait" \/ shown)
Show == /\ ph = "wait" /\ ~Due /\ ~shown /\ shown' = TRUE
        /\ See(<<Ev("plan", [next |-> due, tags |-> SetToSeq(tags)] @@ Sum(last))>>)
        /\ UNCHANGED <<now, ph, err, due, tags, req, locked, last, nreq, nlock, nrun, owed, okbak, pause>>
(* others act when nothing is going on, as the driver does *)
Request == /\ nreq < MaxReq /\ Settled /\ nreq' = nreq + 1 /\ req' = TRUE /\ owed' = 1
           /\ See(<<Ev("run", <<>>)>>)
           /\ UNCHANGED <<now, ph, err, due, tags, shown, locked, last, nlock, nrun, okbak, pause>>
Lock == /\ nlock < MaxLock /\ ~locked /\ ph # "backup" /\ Settled /\ nlock' = nlock + 1 /\ locked' = TRUE
        /\ See(<<Ev("lock", <<>>)>>)
        /\ UNCHANGED <<now, ph, err, due, tags, shown, req, last, nreq, nrun, owed, okbak, pause>>
(* somebody takes the lock at the very end of the backup *)
LockLate == /\ nlock < MaxLock /\ ~locked /\ ph = "backup" /\ nlock' = nlock + 1 /\ locked' = TRUE
            /\ last' = now /\ okbak' = TRUE /\ Fail(now)
            /\ See(<<Ev("bend", [rc |-> 0] @@ Sum(now)), Ev("lock", <<>>)>>)
            /\ UNCHANGED <<now, req, nreq, nrun, owed>>
Unlock == /\ locked /\ Settled /\ locked' = FALSE
          /\ See(<<Ev("unlock", <<>>)>>)
          /\ UNCHANGED <<now, ph, err, due, tags, shown, req, last, nreq, nlock, nrun, owed, okbak, pause>>
Pass == /\ Settled /\ now < MaxT
        /\ \E n \in {now + Step} \cup (IF ph = "wait" THEN {due} ELSE {}) :
             n > now /\ n <= MaxT /\ (ph = "wait" => n <= due) /\ now' = n
        /\ UNCHANGED <<ph, err, due, tags, shown, req, locked, last, nreq, nlock, nrun, m, alarms, owed, okbak, pause>>
Next == Wake \/ BackupEnds \/ GcEnds \/ CallbackEnds \/ Show \/ Request \/ Lock \/ LockLate \/ Unlock \/ Pass
Spec == Init /\ [][Next]_vars

Accepted == alarms = {}
Bounded == pause <= 360 * 60
(* nothing is collected, and the callback told nothing, unless the backup was good *)
OnlyGood == ph \in {"gc", "told"} => okbak
(* a request is never forgotten: it is still known to the loop *)
Remembered == owed > 0 => req
(* no deadline is further away than the interval plus its spread *)
Soon == ph = "wait" /\ err = 0 => due - now <= 7200 + 100
AfterSuccess == ph = "wait" /\ pause > 0 => err > 0
(* the pause follows the number of failures in a row *)
Backoff == ph = "wait" /\ err > 0 => pause = Delay(err)
=============================================================================
