------------------------------- MODULE StatusMC -------------------------------
(* Two jobs over time: backups complete or fail, reports come and go.        *)
EXTENDS Status
CONSTANTS Horizon, MaxRevs
VARIABLES now, jobs, quiet
vars == <<now, jobs, quiet>>
J == {"a", "b"}
(* quiet: time since the last complete backup (-1: none yet) *)
Init == /\ now = 0
        /\ \E i, k \in {2, 4} : jobs = [j \in J |-> [revs |-> <<>>, sched |-> ("s" :> i) @@ ("l" :> k), reports |-> 0]]
        /\ quiet = [j \in J |-> -1]
Rev(ok, srv) == [t |-> now, tags |-> {"s"}, orig |-> {}, server |-> srv, clean |-> ok, dur |-> 1]
Tick == /\ now < Horizon /\ now' = now + 1
        /\ quiet' = [j \in J |-> IF quiet[j] = -1 THEN -1 ELSE quiet[j] + 1]
        /\ UNCHANGED jobs
Backup == \E j \in J, ok \in BOOLEAN :
        /\ now \notin DOMAIN jobs[j].revs /\ Cardinality(DOMAIN jobs[j].revs) < (IF j = "a" THEN MaxRevs ELSE 1)
        /\ jobs' = [jobs EXCEPT ![j].revs = @ @@ (now :> Rev(ok, IF now = 1 THEN "x" ELSE ""))]
        /\ quiet' = IF ok THEN [quiet EXCEPT ![j] = 0] ELSE quiet
        /\ UNCHANGED now
Report == \E j \in J : /\ jobs[j].reports < (IF j = "a" THEN 2 ELSE 1)
        /\ jobs' = [jobs EXCEPT ![j].reports = @ + 1] /\ UNCHANGED <<now, quiet>>
Delete == \E j \in J : /\ jobs[j].reports > 0
        /\ \E k \in {0, jobs[j].reports - 1} : jobs' = [jobs EXCEPT ![j].reports = k]
        /\ UNCHANGED <<now, quiet>>
Next == Tick \/ Backup \/ Report \/ Delete
Spec == Init /\ [][Next]_vars

Short(j) == Least({jobs[j].sched[g] : g \in DOMAIN jobs[j].sched})
(* the alarm depends on nothing but the silence since the newest backup *)
Alarm == \A j \in J : LET o == Overdue(jobs[j], now) IN
   /\ (o # 0) = (quiet[j] # -1 /\ 2 * quiet[j] > 3 * Short(j))
   /\ o # 0 => o = quiet[j]
Exit == LET e == CheckAll(jobs, now) IN
   /\ (e = 2) = (\E j \in J : Violated(jobs[j], now))
   /\ (e = 0) = (\A j \in J : ~Violated(jobs[j], now) /\ jobs[j].reports = 0)
(* a complete backup ends the alarm *)
Ends == [][\A j \in J : quiet'[j] = 0 => ~Violated(jobs'[j], now')]_vars
=============================================================================
