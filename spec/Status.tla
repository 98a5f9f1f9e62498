-------------------------------- MODULE Status --------------------------------
(***************************************************************************)
(* What is reported about a job.  A job is                                 *)
(*  [revs, sched, reports] with                                            *)
(*   revs: id -> [t, tags, orig, server, clean, dur]                       *)
(*   sched: tag -> interval                                                *)
(* times in units of 1/q second                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Clean(revs) == {u \in DOMAIN revs : revs[u].clean}
Newest(revs) == {u \in Clean(revs) : \A v \in Clean(revs) : revs[v].t <= revs[u].t}
(* age of the newest complete backup (0: none) *)
Age(revs, now) == IF Clean(revs) = {} THEN 0 ELSE now - revs[CHOOSE u \in Newest(revs) : TRUE].t
Overdue(job, now) ==
  IF Clean(job.revs) = {} THEN 0
  ELSE LET a == Age(job.revs, now)
           shortest == Least({job.sched[g] : g \in DOMAIN job.sched})
       IN  IF 2 * a > 3 * shortest THEN a ELSE 0
Violated(job, now) == Overdue(job, now) # 0
(* exit status of the check of one job / of several *)
CheckOf(job, now) == IF Violated(job, now) THEN 2 ELSE IF job.reports > 0 THEN 1 ELSE 0
Worst(S) == CHOOSE x \in S \cup {0} : \A y \in S : y <= x
CheckAll(jobs, now) == Worst({CheckOf(jobs[j], now) : j \in DOMAIN jobs})

Pending(r) == r.server # "" /\ r.tags # r.orig
IntervalOf(sched, g) == IF g \in DOMAIN sched THEN sched[g] ELSE 0
Sorted(sched, s) == \A i \in 1..(Len(s) - 1) : IntervalOf(sched, s[i]) <= IntervalOf(sched, s[i + 1])
Elems(s) == {s[i] : i \in DOMAIN s}
ListOf(sched, s, S) == Elems(s) = S /\ Len(s) = Cardinality(S) /\ Sorted(sched, s)
ManualOf(revs, manual) == UNION {revs[u].tags \cap manual : u \in Clean(revs)}

(* the reported record s does not describe the job *)
StatusProblems(job, manual, now, s) ==
  LET n == Newest(job.revs) IN
  (IF s.sla # (IF Violated(job, now) THEN "TOO OLD" ELSE "OK") THEN {"sla"} ELSE {})
  \cup (IF s.overdue # Overdue(job, now) THEN {"sla-overdue"} ELSE {})
  \cup (IF n = {} THEN (IF s.has_last THEN {"phantom-backup"} ELSE {})
        ELSE IF ~s.has_last THEN {"backup-not-reported"}
        ELSE IF ~\E u \in n : /\ s.last_time = job.revs[u].t
                              /\ s.last_duration = job.revs[u].dur
                              /\ ListOf(job.sched, s.last_tags, job.revs[u].tags)
        THEN {"last-backup"} ELSE {})
  \cup (IF ~(Elems(s.manual) = ManualOf(job.revs, manual) /\ Len(s.manual) = Cardinality(Elems(s.manual)))
        THEN {"manual-tags"} ELSE {})
  \cup (IF s.reports # job.reports THEN {"reports"} ELSE {})
  \cup (IF s.unsynced # Cardinality({u \in Clean(job.revs) : Pending(job.revs[u])}) THEN {"unsynced-revisions"} ELSE {})
  \cup (IF s.local # Cardinality({u \in Clean(job.revs) : job.revs[u].server = ""}) THEN {"local-revisions"} ELSE {})
  \cup (IF s.status # job.status \/ s.has_next # job.has_next
           \/ (job.has_next /\ ~(s.next_time = job.next_time /\ ListOf(job.sched, s.next_tags, job.next_tags)))
        THEN {"next-backup"} ELSE {})
=============================================================================
