------------------------------ MODULE Retention ------------------------------
(***************************************************************************)
(* The retention rule.  revs: id -> [t, tags, server, ...], sched: tag ->  *)
(* [interval, keep] (seconds, count), now: seconds.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Keep(f, S) == [x \in (DOMAIN f) \cap S |-> f[x]]
Carry(revs, g) == {u \in DOMAIN revs : g \in revs[u].tags}
Old(revs, sched, now, u, g) == revs[u].t < now - sched[g].keep * sched[g].interval

(* Strictly newer carriers / carriers that are not older (ties). *)
Newer(revs, u, g) == {v \in Carry(revs, g) : revs[v].t > revs[u].t}
NotOlder(revs, u, g) == {v \in Carry(revs, g) \ {u} : revs[v].t >= revs[u].t}

MustDrop(revs, sched, now, u, g) ==
  /\ g \in DOMAIN sched
  /\ Old(revs, sched, now, u, g)
  /\ Cardinality(Newer(revs, u, g)) >= sched[g].keep
MayDrop(revs, sched, now, u, g) ==
  /\ g \in DOMAIN sched
  /\ Old(revs, sched, now, u, g)
  /\ Cardinality(NotOlder(revs, u, g)) >= sched[g].keep

(* tags of a former schedule; manual is the set of manual: tags in use *)
Former(revs, sched, manual, u) == (revs[u].tags \ DOMAIN sched) \ manual

(* With distinct times the outcome is a function. *)
TagsAfter(revs, sched, now, manual, u) ==
  {g \in revs[u].tags : ~MustDrop(revs, sched, now, u, g)}
     \ Former(revs, sched, manual, u)
ExpireFn(revs, sched, now, manual) ==
  LET tg(u) == TagsAfter(revs, sched, now, manual, u)
  IN  [u \in {v \in DOMAIN revs : revs[v].server # "" \/ tg(v) # {}} |->
         [revs[u] EXCEPT !.tags = tg(u)]]

(* The general relation: after is a permitted outcome. *)
TieGroups(revs, sched, now, g) == {u \in Carry(revs, g) :
   MayDrop(revs, sched, now, u, g) /\ ~MustDrop(revs, sched, now, u, g)}

RetentionProblems(revs, sched, now, manual, after) ==
  LET If(b, n) == IF b THEN {n} ELSE {}
      D == DOMAIN revs
      gone == D \ DOMAIN after
      \* what the tags have become; revisions gone had none left
      tg(u) == IF u \in gone THEN {} ELSE after[u].tags
      amb(u) == {g \in revs[u].tags : u \in TieGroups(revs, sched, now, g)}
      certain(u) == {g \in revs[u].tags : MustDrop(revs, sched, now, u, g)}
                      \cup Former(revs, sched, manual, u)
  IN   If(\E u \in DOMAIN after : u \notin D, "revision-appeared")
  \cup If(\E u \in gone : revs[u].server # "", "remote-deleted")
  \cup If(\E u \in D : tg(u) \cap certain(u) # {}, "tag-kept-too-long")
  \cup If(\E u \in gone : \E g \in revs[u].tags : g \notin certain(u) \cup amb(u), "revision-expired-early")
  \cup If(\E u \in D \ gone : ~(((revs[u].tags \ certain(u)) \ amb(u)) \subseteq tg(u)), "tag-dropped-early")
  \cup If(\E u \in D : \E g \in (revs[u].tags \ tg(u)) : g \in manual, "manual-tag-dropped")
  \cup If(\E u \in D \ gone : ~(tg(u) \subseteq revs[u].tags), "tag-added")
  \cup If(\E u \in D \ gone : tg(u) = {} /\ revs[u].server = "", "untagged-kept")
  \cup If(\E u \in D \ gone : [after[u] EXCEPT !.tags = {}] # [revs[u] EXCEPT !.tags = {}],
          "expire-changed-revision")
  \* of carriers at the same time, as many go as the rule says
  \cup If(\E g \in DOMAIN sched :
            LET C == Carry(revs, g)
                left == {u \in C : g \in tg(u)}
                cand == {u \in C : Old(revs, sched, now, u, g)}
                want == IF Cardinality(C) <= sched[g].keep THEN 0
                        ELSE LET m == Cardinality(C) - sched[g].keep
                             IN IF m < Cardinality(cand) THEN m ELSE Cardinality(cand)
            IN Cardinality(C) - Cardinality(left) # want, "wrong-number-expired")
=============================================================================
