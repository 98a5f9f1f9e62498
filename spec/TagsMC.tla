-------------------------------- MODULE TagsMC --------------------------------
(* Two processes editing the same repository, step by step as implemented:  *)
(* open (a view that gets old), lock, look again, check, change one revision *)
(* after the other, unlock.  Each edit must have exactly the effect of Edit  *)
(* on what was on disk when it got the lock.                                 *)
EXTENDS Tags
CONSTANTS Bug
VARIABLES disk, lock, p, log
vars == <<disk, lock, p, log>>
R(u, g, s) == [u |-> u, t |-> 0, tags |-> g, trust |-> "trusted", server |-> s, clean |-> TRUE]
Procs == {1, 2}
Ops == {[action |-> a, tags |-> g, hasExpect |-> e # "any", expect |-> IF e = "a" THEN {"a"} ELSE {},
         autoremove |-> r, force |-> f] :
          a \in {"set", "add", "remove"}, g \in {{}, {"a"}, {"b"}, {"x"}}, e \in {"any", "a"},
          r \in BOOLEAN, f \in BOOLEAN}
Specs == {<<[k |-> "word", v |-> "all", n |-> 0]>>, <<[k |-> "tag", v |-> "a", n |-> 0]>>,
          <<[k |-> "num", v |-> "", n |-> 0]>>}
Idle == [st |-> "new", op |-> CHOOSE o \in Ops : TRUE, T |-> <<>>, view |-> <<>>, q |-> <<>>, j |-> 0, seen |-> <<>>, res |-> "none"]
Init == /\ disk \in {<<R("r1", {"a"}, ""), R("r2", g, s)>> : g \in {{"a"}, {"b"}, {}}, s \in {"", "s"}}
        /\ lock = 0 /\ p = [i \in Procs |-> Idle] /\ log = <<>>
Start(i) == /\ p[i].st = "new"
            /\ \E o \in Ops, T \in Specs :
                 /\ (i = 2) => o.action = "set" /\ T = <<[k |-> "word", v |-> "all", n |-> 0]>> /\ ~o.hasExpect /\ o.force
                 /\ p' = [p EXCEPT ![i] = [Idle EXCEPT !.st = "open", !.op = o, !.T = T, !.view = disk]]
            /\ UNCHANGED <<disk, lock, log>>
TryLock(i) == /\ p[i].st = "open"
              /\ IF lock # 0 THEN p' = [p EXCEPT ![i].st = "end", ![i].res = "locked"] /\ UNCHANGED lock
                 ELSE lock' = i /\ p' = [p EXCEPT ![i].st = "locked", ![i].seen = disk]
              /\ UNCHANGED <<disk, log>>
Look(i) == /\ p[i].st = "locked"
           /\ LET v == IF Bug = "stale" THEN p[i].view ELSE disk
                  s == Many(v, p[i].T)
                  bad == ~s.ok \/ (IF Bug = "latecheck" THEN FALSE ELSE Refused(v, s.q, p[i].op, {"a", "b"}, {}))
              IN  p' = [p EXCEPT ![i].view = v, ![i].q = s.q, ![i].j = 1,
                                 ![i].st = IF bad THEN "unlock" ELSE "edit", ![i].res = IF bad THEN "failed" ELSE "ok"]
           /\ UNCHANGED <<disk, lock, log>>
Change(i) == /\ p[i].st = "edit"
             /\ IF p[i].j > Len(p[i].q) THEN p' = [p EXCEPT ![i].st = "unlock"] /\ UNCHANGED disk
                ELSE LET r == p[i].view[p[i].q[p[i].j]]
                         o == p[i].op
                         n == [r EXCEPT !.tags = NewTags(o, @)]
                         others == KeepIf(disk, LAMBDA x : x.u # r.u)
                         pos == Sel(disk, LAMBDA k : disk[k].u = r.u)
                     IN  IF Bug = "latecheck" /\ Refused(p[i].view, <<p[i].q[p[i].j]>>, o, {"a", "b"}, {})
                         THEN p' = [p EXCEPT ![i].st = "unlock", ![i].res = "failed"] /\ UNCHANGED disk
                         ELSE /\ p' = [p EXCEPT ![i].j = @ + 1]
                              /\ disk' = IF o.autoremove /\ n.tags = {} /\ (n.server = "" \/ Bug = "rmremote") THEN others
                                         ELSE IF pos # <<>> THEN [disk EXCEPT ![pos[1]] = n]
                                         ELSE Append(disk, n)   \* written anew
             /\ UNCHANGED <<lock, log>>
Unlock(i) == /\ p[i].st = "unlock" /\ lock' = 0
             /\ p' = [p EXCEPT ![i].st = "end"]
             /\ log' = Append(log, i)
             /\ UNCHANGED disk
Next == \E i \in Procs : Start(i) \/ TryLock(i) \/ Look(i) \/ Change(i) \/ Unlock(i)
Spec == Init /\ [][Next]_vars

Exact == \A i \in Procs : p[i].st = "unlock" =>
  LET e == Edit(p[i].seen, p[i].T, p[i].op, {"a", "b"}, {})
  IN  /\ disk = e.h /\ (p[i].res = "ok") = e.ok
      /\ (~e.ok => disk = p[i].seen)
Refusal == [][\A i \in Procs : p'[i].res = "locked" /\ p[i].res # "locked" => disk' = disk]_vars
OneAtATime == \A i, k \in Procs : p[i].st \in {"locked", "edit", "unlock"} /\ p[k].st \in {"locked", "edit", "unlock"} => i = k
=============================================================================
