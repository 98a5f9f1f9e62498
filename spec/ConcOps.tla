------------------------------- MODULE ConcOps -------------------------------
(***************************************************************************)
(* Two operations at the same time on one repository whose stored data is  *)
(* intact: the outcome is that of running them one after the other, where  *)
(* a refused or failed operation does nothing.                             *)
(*                                                                         *)
(* An operation is [op, rc, ...]; Meta(o, revs) are the possible revisions *)
(* after running it alone.  revs: id -> [t, tags, server, trust, clean].   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE Retention

Sub(f, S) == [x \in (DOMAIN f) \cap S |-> f[x]]
Loc(r) == {u \in DOMAIN r : r[u].server = ""}
Cln(r) == {u \in DOMAIN r : r[u].clean}
Drop(r, S) == Sub(r, (DOMAIN r) \ S)
NewestOf(r, U) == CHOOSE u \in U : \A v \in U : r[v].t <= r[u].t

AutoVerify(r) ==
  LET D == {u \in Loc(r) \cap Cln(r) : r[u].trust = "distrusted"}
  IN  IF D = {} THEN r ELSE [r EXCEPT ![NewestOf(r, D)].trust = "verified"]

Meta(o, r) ==
  CASE o.op = "create" ->
         (o.n :> [t |-> o.t, tags |-> o.tags, server |-> "", trust |-> "trusted", clean |-> FALSE]) @@ r
    [] o.op = "complete" ->
         AutoVerify((o.n :> [t |-> o.t, tags |-> o.tags, server |-> "", trust |-> "trusted", clean |-> TRUE]) @@ r)
    [] o.op = "clean" -> Drop(r, Loc(r) \ Cln(r))
    [] o.op = "verify" -> IF o.n \in DOMAIN r THEN [r EXCEPT ![o.n].trust = "verified"] ELSE r
    [] o.op = "rm" ->
         [u \in (DOMAIN r) \ (o.sel \cap Loc(r)) |->
            IF u \in o.sel THEN [r[u] EXCEPT !.tags = {}] ELSE r[u]]
    [] o.op = "distrust" ->
         [u \in DOMAIN r |-> IF u \in o.sel THEN [r[u] EXCEPT !.trust = "distrusted"] ELSE r[u]]
    [] o.op = "tags" ->
         LET new(x) == IF o.act = "set" THEN o.tags
                       ELSE IF o.act = "add" THEN x.tags \cup o.tags ELSE x.tags \ o.tags
             gone == IF o.auto THEN {u \in o.sel \cap Loc(r) : new(r[u]) = {}} ELSE {}
         IN  [u \in (DOMAIN r) \ gone |->
                IF u \in o.sel THEN [r[u] EXCEPT !.tags = new(r[u])] ELSE r[u]]
    [] o.op = "expire" -> ExpireFn(r, o.sched, o.now, o.manual)
    [] OTHER -> r      \* gc, restore, refused operations

(* What a caller sees of the revisions: the completed ones. *)
Vis(r) == [u \in Cln(r) |-> [t |-> r[u].t, tags |-> r[u].tags, server |-> r[u].server,
                             trust |-> r[u].trust]]

(* The atomic effects an operation may have had, in order.  A backup       *)
(* removes incomplete leftovers and creates its (incomplete) record before *)
(* it takes its lock; neither is visible, but expiry counts records.  A    *)
(* command that consists of two operations may fail after the first (part).*)
Parts(o) ==
  IF o.op = "backup"
  THEN IF o.n = "-" THEN <<[op |-> "clean"]>>
       ELSE <<[op |-> "clean"], [o EXCEPT !.op = "create"], [o EXCEPT !.op = "complete"]>>
  ELSE <<o>>
Alts(o) ==
  IF o.rc = 0 THEN {Parts(o)}
  ELSE {SubSeq(Parts(o), 1, k) : k \in 0..(IF o.part \/ o.n = "-" THEN Len(Parts(o)) ELSE Len(Parts(o)) - 1)}

(* All outcomes of interleaving sequences qs of atomic effects. *)
RECURSIVE Merge(_, _)
Merge(qs, r) ==
  LET live == {p \in DOMAIN qs : qs[p] # <<>>}
  IN  IF live = {} THEN {r}
      ELSE UNION {Merge([qs EXCEPT ![p] = Tail(@)], Meta(Head(qs[p]), r)) : p \in live}
Outcomes(ops, r) ==
  UNION {Merge(qs, r) : qs \in {f \in [DOMAIN ops -> UNION {Alts(ops[p]) : p \in DOMAIN ops}] :
                                   \A p \in DOMAIN ops : f[p] \in Alts(ops[p])}}

ConcProblems(ops, r, r2) ==
  LET If(x, n) == IF x THEN {n} ELSE {}
      outs == {Vis(x) : x \in Outcomes(ops, r)}
      v == Vis(r2)
      some == UNION {DOMAIN x : x \in outs}
      always == {u \in some : \A x \in outs : u \in DOMAIN x}
  IN  IF v \in outs THEN {}
      ELSE  If(\E u \in always : u \notin DOMAIN v, "revision-lost")
       \cup If(\E u \in DOMAIN v : u \notin some, "removed-revision-back")
       \cup If(\E u \in always \cap DOMAIN v : \A x \in outs : x[u] # v[u], "change-undone")
       \cup {"not-serializable"}
=============================================================================
