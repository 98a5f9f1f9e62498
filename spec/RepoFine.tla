------------------------------ MODULE RepoFine ------------------------------
(***************************************************************************)
(* The algorithms of the image repository, one file-system or cluster      *)
(* effect per step, with crashes after every step, damage of stored        *)
(* chunks, lost snapshots and failing transfers.                           *)
(*                                                                         *)
(* Checked: every finished operation satisfies the clauses of RepoOps      *)
(* (which recorded executions are checked against, too), the content of    *)
(* every complete revision is that of its snapshot (unless damaged from    *)
(* outside), at every moment, also after a crash.                          *)
(***************************************************************************)
EXTENDS RepoOps, Json

CONSTANTS MaxRevs, Pieces, MaxLen, MaxDamage, MaxCrash, MaxOps, Full, Gen,
  \* negative controls: designs that must be refuted
  BugNoClean, BugMetaFirst, BugTrustCompare, BugBaseDistrusted

VARIABLES
  img,    \* current content of the image
  revs,   \* uuid -> [t, trust, clean, mp (NONE or sequence of chunks)]
  store,  \* chunk -> "ok" | "bad"
  snaps,  \* uuid -> content
  cnt,    \* revisions created so far
  op,     \* the running operation
  want,   \* ghost: uuid -> content when its snapshot was taken
  dmg,    \* ghost: chunks ever damaged
  left,   \* remaining [damage, crash, op] budget
  hist    \* ghost: operations so far (generation of test histories)

vars == <<img, revs, store, snaps, cnt, op, want, dmg, left, hist>>
view == <<img, revs, store, snaps, cnt, op, want, dmg, left>>

U == <<"r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8">>
Idle == [k |-> "idle"]
Contents == UNION {[1..n -> Pieces] : n \in 1..MaxLen}
Rng(f) == {f[x] : x \in DOMAIN f}
Mp(r) == r.mp
RefsOfMp(m) == IF m = <<NONE>> THEN {} ELSE Rng(m)

V == [revs |-> [u \in DOMAIN revs |->
         [t |-> revs[u].t, tags |-> {}, orig |-> {}, server |-> "",
          trust |-> revs[u].trust, clean |-> revs[u].clean,
          map |-> revs[u].mp # <<NONE>>, refs |-> RefsOfMp(revs[u].mp)]],
      store |-> store, snaps |-> DOMAIN snaps, foreign |-> {}, pend |-> FALSE,
      reports |-> {}, full |-> Full]

Log(e) == hist' = IF Gen THEN Append(hist, e) ELSE hist
Quiet == UNCHANGED hist

Init ==
  /\ img \in [1..MaxLen -> Pieces]
  /\ revs = <<>> /\ store = <<>> /\ snaps = <<>> /\ cnt = 0 /\ op = Idle
  /\ want = <<>> /\ dmg = {}
  /\ left = [damage |-> MaxDamage, crash |-> MaxCrash, ops |-> MaxOps]
  /\ hist = <<>>

Use(f) == left' = [left EXCEPT ![f] = @ - 1]
At(k, pc) == op.k = k /\ op.pc = pc
Goto(pc) == op' = [op EXCEPT !.pc = pc]
Done(rc) == op' = [op EXCEPT !.pc = "done", !.rc = rc]

---------------------------------------------------------------------------
(* Environment *)
SetImg == /\ op = Idle /\ left.ops > 0
          /\ \E c \in Contents : c # img /\ img' = c /\ Log([e |-> "img", c |-> c])
          /\ Use("ops") /\ UNCHANGED <<revs, store, snaps, cnt, op, want, dmg>>
Damage == /\ op = Idle /\ left.damage > 0
          /\ \E c \in DOMAIN store : \E how \in {"bad", "gone"} :
               /\ store' = IF how = "bad" THEN [store EXCEPT ![c] = "bad"]
                           ELSE Restrict(store, DOMAIN store \ {c})
               /\ dmg' = dmg \cup {c}
               /\ Log([e |-> "damage", c |-> c, how |-> how])
          /\ Use("damage") /\ UNCHANGED <<img, revs, snaps, cnt, op, want>>
SnapLost == /\ op = Idle /\ left.damage > 0
            /\ \E u \in DOMAIN snaps : /\ snaps' = Restrict(snaps, DOMAIN snaps \ {u})
                                       /\ Log([e |-> "snaplost", n |-> u])
            /\ Use("damage") /\ UNCHANGED <<img, revs, store, cnt, op, want, dmg>>
Crash == /\ op # Idle /\ op.pc # "done" /\ left.crash > 0
         /\ op' = Idle /\ Use("crash") /\ Log([e |-> "crash", k |-> op.k, pc |-> op.pc])
         /\ UNCHANGED <<img, revs, store, snaps, cnt, want, dmg>>
Finish == /\ op # Idle /\ op.pc = "done" /\ op' = Idle /\ Quiet
          /\ UNCHANGED <<img, revs, store, snaps, cnt, want, dmg, left>>

---------------------------------------------------------------------------
(* Backup *)
StartBackup ==
  /\ op = Idle /\ left.ops > 0 /\ cnt < MaxRevs
  /\ \E fault \in {"", "snap_create", "mid"} :
       /\ (fault # "" => left.damage > 0)
       /\ op' = [k |-> "backup", pc |-> "clean", pre |-> V, n |-> U[cnt + 1], base |-> NONE,
                 kind |-> "none", mem |-> <<>>, todo |-> {}, touched |-> {}, fresh |-> {},
                 fault |-> fault, rc |-> 0, forced |-> FALSE, vt |-> NONE, bad |-> NONE]
       /\ left' = [left EXCEPT !.ops = @ - 1, !.damage = IF fault = "" THEN @ ELSE @ - 1]
       /\ Log([e |-> "backup", fault |-> fault])
  /\ cnt' = cnt + 1
  /\ UNCHANGED <<img, revs, store, snaps, want, dmg>>

BClean == /\ At("backup", "clean")
          /\ LET l == IF BugNoClean THEN {} ELSE {u \in DOMAIN revs : ~revs[u].clean} IN
             IF l = {} THEN Goto("create") /\ UNCHANGED revs
             ELSE \E u \in l : revs' = Restrict(revs, DOMAIN revs \ {u}) /\ UNCHANGED op
          /\ Quiet /\ UNCHANGED <<img, store, snaps, cnt, want, dmg, left>>
BCreate == /\ At("backup", "create")
           /\ revs' = revs @@ (op.n :> [t |-> cnt, trust |-> "trusted", clean |-> BugMetaFirst, mp |-> <<NONE>>])
           /\ Goto("snap") /\ Quiet /\ UNCHANGED <<img, store, snaps, cnt, want, dmg, left>>
BSnap == /\ At("backup", "snap")
         /\ IF op.fault = "snap_create" THEN Goto("drop") /\ UNCHANGED <<snaps, want>>
            ELSE /\ snaps' = snaps @@ (op.n :> img)
                 /\ want' = want @@ (op.n :> img)
                 /\ Goto("base")
         /\ Quiet /\ UNCHANGED <<img, revs, store, cnt, dmg, left>>

BasesFine == {u \in DOMAIN revs : u # op.n /\ (BugBaseDistrusted \/ revs[u].trust # "distrusted")
                                  /\ u \in DOMAIN snaps}
NewestFine(S) == CHOOSE u \in S : \A v \in S : revs[v].t <= revs[u].t
DistrustedFine == {u \in DOMAIN revs : revs[u].clean /\ revs[u].trust = "distrusted"}

BBase ==
  /\ At("backup", "base")
  /\ LET b == IF Full \/ BasesFine = {} THEN NONE ELSE NewestFine(BasesFine)
         i == snaps[op.n]
         old == IF b = NONE THEN <<>> ELSE revs[b].mp
         oldc == IF b = NONE THEN <<>> ELSE snaps[b]
         tch == IF b = NONE THEN DOMAIN i
                ELSE {x \in DOMAIN i : x > Len(oldc) \/ oldc[x] # i[x]}
     IN  IF b # NONE /\ old = <<NONE>>
         THEN op' = [op EXCEPT !.pc = "snapdel-fail", !.rc = 1]
         ELSE op' = [op EXCEPT !.pc = "write", !.base = b,
                       !.kind = IF b = NONE THEN "full" ELSE "diff",
                       !.mem = [x \in DOMAIN i |-> IF x \in DOMAIN old THEN old[x] ELSE NONE],
                       !.todo = tch, !.touched = {i[x] : x \in tch},
                       !.forced = IF BugTrustCompare THEN FALSE ELSE DistrustedFine # {}]
  /\ Quiet /\ UNCHANGED <<img, revs, store, snaps, cnt, want, dmg, left>>

BWrite ==
  /\ At("backup", "write")
  /\ LET i == snaps[op.n] IN
     IF op.todo = {} THEN Goto("map") /\ UNCHANGED store
     ELSE IF op.fault = "mid" /\ Cardinality(op.todo) = 1
     THEN op' = [op EXCEPT !.pc = "snapdel-fail", !.rc = 1] /\ UNCHANGED store
     ELSE \E x \in op.todo :
       \/ \* a partial write has to read the old chunk
          /\ op.mem[x] # NONE
          /\ ~(op.mem[x] \in DOMAIN store /\ store[op.mem[x]] = "ok")
          /\ op' = [op EXCEPT !.pc = "snapdel-bad", !.rc = 1]
          /\ UNCHANGED store
       \/ LET c == i[x]
              wr == (op.forced \/ c \notin DOMAIN store) /\ c \notin op.fresh
          IN  /\ store' = IF wr THEN [y \in DOMAIN store \cup {c} |-> IF y = c THEN "ok" ELSE store[y]]
                          ELSE store
              /\ op' = [op EXCEPT !.todo = @ \ {x}, !.mem[x] = c,
                                  !.fresh = IF wr THEN @ \cup {c} ELSE @]
  /\ Quiet /\ UNCHANGED <<img, revs, snaps, cnt, want, dmg, left>>
BMap == /\ At("backup", "map")
        /\ revs' = [revs EXCEPT ![op.n].mp = op.mem]
        /\ Goto("check") /\ Quiet /\ UNCHANGED <<img, store, snaps, cnt, want, dmg, left>>
BCheck == /\ At("backup", "check")
          /\ \E x \in DOMAIN op.mem :
               IF op.mem[x] \in DOMAIN store /\ store[op.mem[x]] = "ok"
               THEN IF op.mem[x] = snaps[op.n][x] THEN Goto("snapdel-ok")
                    ELSE op' = [op EXCEPT !.pc = "snapdel-fail", !.rc = 1]
               ELSE op' = [op EXCEPT !.pc = "snapdel-bad", !.rc = 1]
          /\ Quiet /\ UNCHANGED <<img, revs, store, snaps, cnt, want, dmg, left>>
BSnapDel == /\ op.k = "backup" /\ op.pc \in {"snapdel-ok", "snapdel-bad", "snapdel-fail"}
            /\ LET keep == IF Full THEN {} ELSE {NewestFine(DOMAIN revs)}
                   del == DOMAIN snaps \ keep IN
               IF del # {} THEN \E u \in del : snaps' = Restrict(snaps, DOMAIN snaps \ {u}) /\ UNCHANGED op
               ELSE /\ UNCHANGED snaps
                    /\ Goto(CASE op.pc = "snapdel-ok" -> "finish"
                              [] op.pc = "snapdel-bad" -> "distrust"
                              [] OTHER -> "drop")
            /\ Quiet /\ UNCHANGED <<img, revs, store, cnt, want, dmg, left>>
BDistrust == /\ At("backup", "distrust")
             /\ LET t == {u \in DOMAIN revs : revs[u].trust # "distrusted"} IN
                IF t = {} THEN Goto("dropbad") /\ UNCHANGED revs
                ELSE \E u \in t : revs' = [revs EXCEPT ![u].trust = "distrusted"] /\ UNCHANGED op
             /\ Quiet /\ UNCHANGED <<img, store, snaps, cnt, want, dmg, left>>
BDrop == /\ op.k = "backup" /\ op.pc \in {"drop", "dropbad"}
         /\ revs' = Restrict(revs, DOMAIN revs \ {op.n})
         /\ op' = [op EXCEPT !.rc = 1, !.pc = IF op.pc = "drop" THEN "done" ELSE "auto"]
         /\ Quiet /\ UNCHANGED <<img, store, snaps, cnt, want, dmg, left>>
BFinish == /\ At("backup", "finish")
           /\ revs' = [revs EXCEPT ![op.n].clean = TRUE]
           /\ Goto("auto")
           /\ Quiet /\ UNCHANGED <<img, store, snaps, cnt, want, dmg, left>>
BAuto == /\ At("backup", "auto")
         /\ IF DistrustedFine = {} THEN Goto("done")
            ELSE op' = [op EXCEPT !.pc = "verify", !.vt = NewestFine(DistrustedFine)]
         /\ Quiet /\ UNCHANGED <<img, revs, store, snaps, cnt, want, dmg, left>>

---------------------------------------------------------------------------
(* Verification (of op.vt) and collection, also as part of a backup. *)
StartVerify ==
  /\ op = Idle /\ left.ops > 0
  /\ \E u \in {v \in DOMAIN revs : revs[v].clean} :
       /\ op' = [k |-> "verify", pc |-> "verify", pre |-> V, n |-> u, vt |-> u, rc |-> 0, bad |-> NONE]
       /\ Log([e |-> "verify", n |-> u])
  /\ Use("ops") /\ UNCHANGED <<img, revs, store, snaps, cnt, want, dmg>>
CoveredFine == UNION {Rng(revs[v].mp) : v \in {w \in DOMAIN revs : revs[w].clean /\ revs[w].trust = "verified" /\ revs[w].mp # <<NONE>>}}
VCheck ==
  /\ op # Idle /\ op.pc = "verify"
  /\ LET todo == Rng(revs[op.vt].mp) \ CoveredFine
         bad == {c \in todo : ~(c \in DOMAIN store /\ store[c] = "ok")} IN
     IF bad = {} THEN Goto("vmark") ELSE \E c \in bad : op' = [op EXCEPT !.pc = "vunlink", !.bad = c]
  /\ Quiet /\ UNCHANGED <<img, revs, store, snaps, cnt, want, dmg, left>>
VMark == /\ op # Idle /\ op.pc = "vmark"
         /\ revs' = [revs EXCEPT ![op.vt].trust = "verified"] /\ Goto("gc")
         /\ Quiet /\ UNCHANGED <<img, store, snaps, cnt, want, dmg, left>>
VUnlink == /\ op # Idle /\ op.pc = "vunlink"
           /\ store' = Restrict(store, DOMAIN store \ {op.bad}) /\ Goto("vremove")
           /\ Quiet /\ UNCHANGED <<img, revs, snaps, cnt, want, dmg, left>>
VRemove == /\ op # Idle /\ op.pc = "vremove"
           /\ revs' = Restrict(revs, DOMAIN revs \ {op.vt}) /\ Goto("gc")
           /\ Quiet /\ UNCHANGED <<img, store, snaps, cnt, want, dmg, left>>
StartGc == /\ op = Idle /\ left.ops > 0
           /\ op' = [k |-> "gc", pc |-> "gc", pre |-> V, rc |-> 0]
           /\ Log([e |-> "gc"])
           /\ Use("ops") /\ UNCHANGED <<img, revs, store, snaps, cnt, want, dmg>>
Gc == /\ op # Idle /\ op.pc = "gc"
      /\ IF \E u \in DOMAIN revs : revs[u].mp = <<NONE>>
         THEN Done(1) /\ UNCHANGED store
         ELSE LET used == UNION {Rng(revs[u].mp) : u \in DOMAIN revs}
                  g == DOMAIN store \ used IN
              IF g = {} THEN Goto("done") /\ UNCHANGED store
              ELSE \E c \in g : store' = Restrict(store, DOMAIN store \ {c}) /\ UNCHANGED op
      /\ Quiet /\ UNCHANGED <<img, revs, snaps, cnt, want, dmg, left>>

Rm == /\ op = Idle /\ left.ops > 0
      /\ \E u \in DOMAIN revs :
           /\ revs' = Restrict(revs, DOMAIN revs \ {u})
           /\ op' = [k |-> "rm", pc |-> "done", pre |-> V, rc |-> 0, sel |-> {u}]
           /\ Log([e |-> "rm", n |-> u])
      /\ Use("ops") /\ UNCHANGED <<img, store, snaps, cnt, want, dmg>>
Distrust == /\ op = Idle /\ left.ops > 0
            /\ \E u \in {v \in DOMAIN revs : revs[v].clean} :
                 /\ revs[u].trust # "distrusted"
                 /\ revs' = [revs EXCEPT ![u].trust = "distrusted"]
                 /\ op' = [k |-> "distrust", pc |-> "done", pre |-> V, rc |-> 0, sel |-> {u}]
                 /\ Log([e |-> "distrust", n |-> u])
            /\ Use("ops") /\ UNCHANGED <<img, store, snaps, cnt, want, dmg>>

Next == \/ SetImg \/ Damage \/ SnapLost \/ Crash \/ Finish
        \/ StartBackup \/ BClean \/ BCreate \/ BSnap \/ BBase \/ BWrite \/ BMap \/ BCheck
        \/ BSnapDel \/ BDistrust \/ BDrop \/ BFinish \/ BAuto
        \/ StartVerify \/ VCheck \/ VMark \/ VUnlink \/ VRemove
        \/ StartGc \/ Gc \/ Rm \/ Distrust
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
EventOf ==
  CASE op.k = "backup" ->
        [op |-> "backup", rc |-> op.rc, n |-> op.n, t |-> cnt, tags |-> {}, kind |-> op.kind,
         base |-> op.base, touched |-> op.touched, fresh |-> op.fresh \cap DOMAIN store,
         samp |-> IF op.n \in DOMAIN revs THEN Rng(revs[op.n].mp) ELSE {},
         faults |-> CASE op.fault = "" -> {} [] op.fault = "mid" -> {"export", "diff"}
                      [] OTHER -> {op.fault},
         mismatch |-> "no", repok |-> TRUE]
    [] op.k = "verify" -> [op |-> "verify", rc |-> op.rc, n |-> op.n]
    [] op.k = "gc" -> [op |-> "gc", rc |-> op.rc]
    [] op.k \in {"rm", "distrust"} -> [op |-> op.k, rc |-> op.rc, sel |-> op.sel]
    [] OTHER -> [op |-> "none"]

(* A truncated transfer that has nothing to transfer cannot fail. *)
Vacuous == op.k = "backup" /\ op.fault = "mid" /\ op.touched = {}

OpsAllowed ==
  (op # Idle /\ op.pc = "done" /\ ~Vacuous) => Problems(op.pre, EventOf, V) = {}

Content(u) == IF revs[u].mp # <<NONE>> /\ \A c \in Rng(revs[u].mp) : c \in DOMAIN store /\ store[c] = "ok"
              THEN revs[u].mp ELSE <<"bad">>
(* P01/P03: complete revisions restore to their snapshot at every moment. *)
Durable == \A u \in DOMAIN revs : revs[u].clean =>
              Content(u) = want[u] \/ RefsOfMp(revs[u].mp) \cap dmg # {}
(* Undamaged revisions are never lost silently. *)
TypeOK == \A u \in DOMAIN revs : revs[u].clean => revs[u].mp # <<NONE>>

(* P03: after any history the next undisturbed backup succeeds (checked as  *)
(* a consequence of "spurious-failure" in OpsAllowed).                      *)

(* generation of histories for the real code *)
GenPrint == (Gen /\ left.ops = 0 /\ op = Idle /\ Len(hist) > 0)
              => PrintT("@@" \o ToJson([img |-> img, hist |-> hist]))
=============================================================================
