----------------------------- MODULE RetentionMC -----------------------------
(* Backups being made and expired over time under a schedule that may       *)
(* change.  The expiry algorithm as implemented (per tag: the oldest beyond  *)
(* `keep`, then former tags, then untagged revisions) is compared with the   *)
(* rule; consequences of the rule are checked as invariants.                 *)
EXTENDS Retention, SequencesExt, Json
CONSTANTS MaxT, MaxRevs, Bug, Gen
VARIABLES revs, now, sched, n, probs, expired

Scheds == {("d" :> [interval |-> 1, keep |-> 2]),
           ("d" :> [interval |-> 1, keep |-> 1]) @@ ("w" :> [interval |-> 3, keep |-> 1]),
           ("w" :> [interval |-> 2, keep |-> 2])}
Manual == {"m"}

Sorted(rs, g) == SetToSortSeq(Carry(rs, g), LAMBDA a, b : rs[a].t < rs[b].t \/ (rs[a].t = rs[b].t /\ a < b))
RECURSIVE Phase1(_, _)
Phase1(rs, gs) ==
  IF gs = {} THEN rs
  ELSE LET g == CHOOSE x \in gs : TRUE
           q == Sorted(rs, g)
           k == sched[g].keep
           m == IF Bug = "keep" THEN k - 1 ELSE k
           old == {u \in {q[i] : i \in 1..(Len(q) - m)} :
                     IF Bug = "age" THEN rs[u].t <= now - k * sched[g].interval
                     ELSE IF Bug = "noage" THEN TRUE
                     ELSE rs[u].t < now - k * sched[g].interval}
           rs2 == [u \in DOMAIN rs |-> IF u \in old THEN [rs[u] EXCEPT !.tags = @ \ {g}] ELSE rs[u]]
       IN  Phase1(rs2, gs \ {g})
Algo(rs) ==
  LET a == Phase1(rs, DOMAIN sched)
      b == [u \in DOMAIN a |->
              [a[u] EXCEPT !.tags = @ \ ((@ \ DOMAIN sched) \ (IF Bug = "manual" THEN {} ELSE Manual))]]
  IN  Keep(b, {u \in DOMAIN b : b[u].tags # {} \/ (b[u].server # "" /\ Bug # "remote")})

Init == revs = <<>> /\ now = 0 /\ sched \in Scheds /\ n = 0 /\ probs = {} /\ expired = FALSE
Backup == /\ n < MaxRevs /\ n' = n + 1
          /\ \E tg \in SUBSET (DOMAIN sched \cup Manual) \ {{}} : \E s \in {"", "peer"} :
               revs' = ((n + 1) :> [t |-> now, tags |-> tg, server |-> s]) @@ revs
          /\ expired' = FALSE /\ UNCHANGED <<now, sched, probs>>
Tick == /\ now < MaxT /\ now' = now + 1 /\ expired' = FALSE /\ UNCHANGED <<revs, sched, n, probs>>
Change == /\ \E s \in Scheds \ {sched} : sched' = s
          /\ expired' = FALSE /\ UNCHANGED <<revs, now, n, probs>>
Expire == /\ ~expired
          /\ LET a == Algo(revs) IN
             /\ revs' = a /\ expired' = TRUE
             /\ probs' = RetentionProblems(revs, sched, now, Manual, a)
                         \cup (IF \E u, v \in DOMAIN revs : u # v /\ revs[u].t = revs[v].t THEN {}
                               ELSE IF a # ExpireFn(revs, sched, now, Manual) THEN {"function"} ELSE {})
          /\ (Gen => PrintT("@@" \o ToJson([revs |-> [u \in DOMAIN revs |-> revs[u]], sched |-> sched, now |-> now])))
          /\ UNCHANGED <<now, sched, n>>
Next == Backup \/ Tick \/ Change \/ Expire
Spec == Init /\ [][Next]_<<revs, now, sched, n, probs, expired>>

RuleHolds == probs = {}
Idempotent == expired => Algo(revs) = revs
(* the newest revisions never lose a scheduled tag: whatever the age *)
NewestKept == [][Expire => \A g \in DOMAIN sched : \A u \in Carry(revs, g) :
                  Cardinality(NotOlder(revs, u, g)) < sched[g].keep
                  => u \in DOMAIN revs' /\ g \in revs'[u].tags]_<<revs, now, sched, n, probs, expired>>
(* nothing local without a reason to stay remains *)
NoLeftovers == expired => \A u \in DOMAIN revs : revs[u].server = "" =>
                 revs[u].tags \cap (DOMAIN sched \cup Manual) # {}
=============================================================================
