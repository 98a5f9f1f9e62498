------------------------------ MODULE RepoOps ------------------------------
(***************************************************************************)
(* What every operation on an image repository may do, as a relation       *)
(* between the complete repository state before and after it.              *)
(*                                                                         *)
(* A state is a record                                                     *)
(*   revs    : uuid -> [t, tags, orig, server, trust, clean, map, refs]    *)
(*   store   : chunk id -> "ok" | "bad"                                    *)
(*   snaps   : uuids whose snapshot exists in the cluster                  *)
(*   foreign : all other snapshots (this or other images)                  *)
(*   pend    : purge requested                                             *)
(*   reports : problem report ids                                          *)
(*   full    : the job always makes full backups                           *)
(*                                                                         *)
(* `Problems(s, a, s2)` is the set of violated clauses of the step s -> s2 *)
(* with the event a.  It is used twice: RepoFine checks that the detailed  *)
(* algorithm never violates a clause (model checking) and RepoTrace that   *)
(* recorded executions of the real code do not (conformance).              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CO == INSTANCE ConcOps

NONE == "-"

Local(s) == {u \in DOMAIN s.revs : s.revs[u].server = ""}
Complete(s) == {u \in DOMAIN s.revs : s.revs[u].clean}
LocalComplete(s) == Local(s) \cap Complete(s)
Restrict(f, S) == [x \in (DOMAIN f) \cap S |-> f[x]]
RefsOf(s, U) == UNION {s.revs[u].refs : u \in U}
Intact(s, C) == \A c \in C : c \in DOMAIN s.store /\ s.store[c] = "ok"
BadChunks(s) == {c \in DOMAIN s.store : s.store[c] # "ok"}
Newest(s, U) == CHOOSE u \in U : \A v \in U : s.revs[v].t <= s.revs[u].t
Without(s, U) == [s EXCEPT !.revs = Restrict(s.revs, (DOMAIN s.revs) \ U)]

(* Incomplete local leftovers of an interrupted run. *)
Leftovers(s) == Local(s) \ Complete(s)
Cleaned(s) == Without(s, Leftovers(s))

Distrusted(s) == {u \in LocalComplete(s) : s.revs[u].trust = "distrusted"}
Forced(s) == Distrusted(s) # {}

(* The only valid base of an incremental backup. *)
Bases(s) == {u \in LocalComplete(s) : s.revs[u].trust # "distrusted" /\ u \in s.snaps}
BaseOf(s) == IF s.full \/ Bases(s) = {} THEN NONE ELSE Newest(s, Bases(s))

Readable(s) == \A u \in Local(s) : s.revs[u].map

(* Garbage collection. *)
Purged(s) == [s EXCEPT !.store = Restrict(s.store, RefsOf(s, Local(s))),
                       !.pend = FALSE]
AfterGc(s) == IF Readable(s) THEN Purged(s) ELSE s

(* Verification of u: all states it may lead to. *)
Covered(s) == RefsOf(s, {v \in LocalComplete(s) : s.revs[v].trust = "verified"})
Broken(s, u) == {c \in s.revs[u].refs \ Covered(s) : ~Intact(s, {c})}
AfterVerify(s, u) ==
  IF ~s.revs[u].map THEN {s}
  ELSE IF Broken(s, u) = {}
  THEN {AfterGc([s EXCEPT !.revs[u].trust = "verified"])}
  ELSE {AfterGc([Without(s, {u}) EXCEPT !.store = Restrict(s.store, (DOMAIN s.store) \ {c})])
          : c \in Broken(s, u)}

(* The verification that follows a backup while something is distrusted. *)
AfterAutoVerify(s) ==
  IF Distrusted(s) = {} THEN {s} ELSE AfterVerify(s, Newest(s, Distrusted(s)))

DistrustAll(s) ==
  [s EXCEPT !.revs = [u \in DOMAIN s.revs |->
      IF s.revs[u].server = "" THEN [s.revs[u] EXCEPT !.trust = "distrusted"] ELSE s.revs[u]]]

Core(s) == [revs |-> s.revs, store |-> s.store]
Revs(s) == s.revs

If(b, name) == IF b THEN {name} ELSE {}

---------------------------------------------------------------------------
(* Backup.  a = [op, rc, n (id of the new revision or NONE), tags,         *)
(*   kind: "none" | "full" | "diff" (what was transferred), base,          *)
(*   touched: ids of the new revision's chunks whose data was transferred, *)
(*   samp: ids of its chunks the comparison may look at, fresh: chunk ids  *)
(*   (re)written by the run, faults: injected cluster faults,              *)
(*   mismatch: device content differs from snapshot, repok]                *)

(* chunks that can make reading fail *)
Suspect(p, a) ==
  LET base == BaseOf(p)
      old == IF base = NONE THEN {} ELSE {c \in p.revs[base].refs : ~Intact(p, {c})}
  IN  IF Forced(p) THEN old ELSE old \cup BadChunks(p)

MayFail(p, a) ==
  \/ a.faults \cap {"info", "snap_create", "map", "device"} # {}
  \/ "export" \in a.faults /\ BaseOf(p) = NONE
  \/ "diff" \in a.faults /\ BaseOf(p) # NONE
  \/ Suspect(p, a) # {}
  \/ ~Readable(p)
MustFail(p, a) ==
  \/ a.faults \cap {"info", "snap_create", "map"} # {}
  \/ "export" \in a.faults /\ BaseOf(p) = NONE
  \/ "diff" \in a.faults /\ BaseOf(p) # NONE
  \/ a.mismatch = "always"

(* the store before the automatic verification is known up to new chunks *)
NewRev(a, s2) == a.n # NONE /\ a.n \in DOMAIN s2.revs

BackupProblems(s, a, s2) ==
  LET p == Cleaned(s)
      done == NewRev(a, s2)
      old == DOMAIN p.revs
      dist == Distrusted(p)
      reached == a.kind # "none"
      own == s.snaps \cup (IF a.n = NONE THEN {} ELSE {a.n})
      mids == \* the old revisions before the automatic verification
        IF done THEN {p} ELSE {p} \cup (IF Suspect(p, a) # {} THEN {DistrustAll(p)} ELSE {})
      \* expected revisions of the old ones, for each possible store of s2
      fin(m) ==
        LET m1 == [m EXCEPT !.store = [c \in (DOMAIN m.store) \cup a.fresh |->
                      IF c \in a.fresh THEN "ok" ELSE m.store[c]]]
            m2 == IF done THEN [m1 EXCEPT !.revs = m1.revs @@ (a.n :> s2.revs[a.n])] ELSE m1
        IN  {m2} \cup AfterAutoVerify(m2)
      finals == UNION {fin(m) : m \in mids}
      vt == IF dist = {} THEN NONE ELSE Newest(p, dist)
      keep == LET r == p.revs @@ (IF a.n = NONE THEN <<>> ELSE a.n :> [t |-> a.t, server |-> ""])
                  L == {u \in DOMAIN r : r[u].server = ""}
              IN  IF s.full \/ L = {} THEN NONE
                  ELSE CHOOSE u \in L : \A v \in L : r[v].t <= r[u].t
      lost == {u \in old : u \notin DOMAIN s2.revs}
      newrep == Cardinality(s2.reports \ s.reports)
      same(m) == \A u \in old : /\ u \in DOMAIN s2.revs <=> u \in DOMAIN m.revs
                                /\ u \in DOMAIN s2.revs => s2.revs[u] = m.revs[u]
  IN
  \* outcome
     If(a.rc = 0 /\ ~done, "success-without-revision")
  \cup If(a.rc = 0 /\ MustFail(p, a), "fault-unnoticed")
  \cup If(a.rc # 0 /\ ~MayFail(p, a), "spurious-failure")
  \cup If(a.rc # 0 /\ done /\ Readable(p), "failed-revision-kept")
  \cup If(done /\ ~s2.revs[a.n].clean, "incomplete-revision-kept")
  \cup If(done /\ ~(s2.revs[a.n].tags = a.tags /\ s2.revs[a.n].server = ""
                    /\ s2.revs[a.n].trust = "trusted"), "metadata-wrong")
  \cup If(done /\ a.rc = 0 /\ a.samp # {} /\ ~\E c \in a.samp : Intact(s2, {c}),
          "damage-unnoticed")
  \cup If(Leftovers(s2) # {}, "leftovers-kept")
  \* base and snapshots
  \cup If(a.kind = "full" /\ BaseOf(p) # NONE, "not-incremental")
  \cup If(a.kind = "diff" /\ a.base # BaseOf(p), "wrong-base")
  \cup If(s2.foreign # s.foreign, "foreign-snapshot-touched")
  \cup If(~(s2.snaps \subseteq own), "unknown-snapshot")
  \cup If(a.rc = 0 /\ "snap_rm" \notin a.faults /\ s2.snaps # own \cap {keep},
          "snapshots-wrong")
  \cup If(a.rc = 0 /\ ~s.full /\ keep = a.n /\ a.n \notin s2.snaps, "own-snapshot-lost")
  \* trust
  \cup If(done /\ dist # {} /\ ~(a.touched \subseteq a.fresh), "not-rewritten")
  \cup If(a.rc = 0 /\ Readable(p) /\ vt # NONE /\ vt \in DOMAIN s2.revs
            /\ s2.revs[vt].trust # "verified", "distrusted-not-verified")
  \* the other revisions
  \cup If(Readable(p) /\ ~\E m \in finals : same(m), "other-revisions-changed")
  \cup If(Readable(p) /\ a.rc # 0 /\ ~done /\ a.faults = {}
            /\ ~\E m \in fin(DistrustAll(p)) : same(m), "read-error-not-distrusted")
  \cup If(\E u \in lost : s.revs[u].server # "" \/ Broken(DistrustAll(p), u) = {},
          "intact-revision-lost")
  \cup If(\E u \in DOMAIN s2.revs : u \notin old /\ u # a.n, "revision-appeared")
  \cup If(~(s.reports \subseteq s2.reports), "report-lost")
  \cup If(newrep > 1 \/ (a.rc = 0 /\ newrep > 0)
          \/ (a.mismatch = "no" /\ "export" \notin a.faults /\ newrep > 0), "unexpected-report")
  \cup If(a.mismatch = "always" /\ a.faults \subseteq {"device", "snap_rm"} /\ Readable(p)
          /\ Suspect(p, a) = {} /\ newrep = 0, "report-missing")
  \cup If(~a.repok, "report-incomplete")
  \* stored data
  \cup If(\E c \in RefsOf(s, LocalComplete(p)) : Intact(s, {c}) /\ ~Intact(s2, {c})
            /\ \E u \in LocalComplete(s2) : c \in s2.revs[u].refs, "chunk-lost")

---------------------------------------------------------------------------
GcProblems(s, a, s2) ==
  LET want == AfterGc(s) IN
     If(Readable(s) /\ ~(RefsOf(s, Local(s)) \cap DOMAIN s.store \subseteq DOMAIN s2.store),
        "referenced-chunk-deleted")
  \cup If(Readable(s) /\ ~(DOMAIN s2.store \subseteq RefsOf(s, Local(s))), "garbage-kept")
  \cup If(~Readable(s) /\ s2.store # s.store, "deleted-without-knowledge")
  \cup If(\E c \in DOMAIN s2.store : c \notin DOMAIN s.store \/ s2.store[c] # s.store[c],
          "chunk-changed")
  \cup If(Revs(s2) # Revs(s), "gc-changed-revisions")
  \cup If(s2.pend # want.pend, "pending-marker")
  \cup If(a.rc # (IF Readable(s) THEN 0 ELSE 1), "gc-exit-status")
  \cup If(s2.snaps # s.snaps \/ s2.foreign # s.foreign \/ s2.reports # s.reports,
          "gc-side-effect")

VerifyProblems(s, a, s2) ==
  LET outs == AfterVerify(s, a.n)
      u == a.n
  IN   If(Readable(s) /\ Broken(s, u) = {} /\ ~(u \in DOMAIN s2.revs /\ s2.revs[u].trust = "verified"),
          "intact-not-verified")
  \cup If(Readable(s) /\ Broken(s, u) # {} /\ u \in DOMAIN s2.revs, "damaged-revision-kept")
  \cup If(u \in DOMAIN s2.revs /\ s2.revs[u].trust = "verified" /\ Broken(s, u) # {},
          "damaged-verified")
  \cup If(\E v \in (DOMAIN s.revs) \ {u} : v \notin DOMAIN s2.revs \/ s2.revs[v] # s.revs[v],
          "verify-changed-others")
  \cup If(DOMAIN s2.revs \ DOMAIN s.revs # {}, "revision-appeared")
  \cup If(Readable(s) /\ ~\E m \in outs : m.store = s2.store, "verify-store")
  \cup If(Readable(s) /\ ~\E m \in outs : Core(m) = Core(s2), "verify-outcome")
  \cup If(a.rc # 0 /\ Readable(s), "verify-exit-status")
  \cup If(s2.snaps # s.snaps \/ s2.foreign # s.foreign \/ s2.reports # s.reports,
          "verify-side-effect")

SameBut(s, s2) ==
     If(s2.store # s.store, "store-changed")
  \cup If(s2.snaps # s.snaps \/ s2.foreign # s.foreign, "snapshots-changed")
  \cup If(s2.reports # s.reports, "reports-changed")

RmProblems(s, a, s2) ==
  LET want == [u \in (DOMAIN s.revs) \ (a.sel \cap Local(s)) |->
                 IF u \in a.sel THEN [s.revs[u] EXCEPT !.tags = {}] ELSE s.revs[u]]
  IN If(Revs(s2) # want, "rm-wrong") \cup SameBut(s, s2)
     \cup If(a.rc # 0, "rm-exit-status")

DistrustProblems(s, a, s2) ==
  LET want == [u \in DOMAIN s.revs |->
                 IF u \in a.sel THEN [s.revs[u] EXCEPT !.trust = "distrusted"] ELSE s.revs[u]]
  IN If(Revs(s2) # want, "distrust-wrong") \cup SameBut(s, s2)
     \cup If(a.rc # 0, "distrust-exit-status")

TagsProblems(s, a, s2) ==
  LET new(r) == IF a.act = "set" THEN a.tags
                ELSE IF a.act = "add" THEN r.tags \cup a.tags ELSE r.tags \ a.tags
      gone == IF a.auto THEN {u \in a.sel : new(s.revs[u]) = {}} ELSE {}
      want == [u \in (DOMAIN s.revs) \ (gone \cap Local(s)) |->
                 IF u \in a.sel THEN [s.revs[u] EXCEPT !.tags = new(s.revs[u])] ELSE s.revs[u]]
  IN If(Revs(s2) # want, "tags-wrong") \cup SameBut(s, s2)
     \cup If(a.rc # 0, "tags-exit-status")

(* `gc --expire --local`: the exact rule is the subject of Retention.tla. *)
ExpireProblems(s, a, s2) ==
     If(\E u \in DOMAIN s2.revs : u \notin DOMAIN s.revs, "revision-appeared")
  \cup If(\E u \in (DOMAIN s.revs) \ (DOMAIN s2.revs) :
            s.revs[u].server # "" \/ \E x \in s.revs[u].tags : x \in a.manual, "expire-lost")
  \cup If(\E u \in (DOMAIN s.revs) \cap DOMAIN s2.revs :
            \/ [s2.revs[u] EXCEPT !.tags = {}] # [s.revs[u] EXCEPT !.tags = {}]
            \/ ~(s2.revs[u].tags \subseteq s.revs[u].tags), "expire-changed")
  \cup GcProblems([s EXCEPT !.revs = s2.revs], [a EXCEPT !.rc = IF Readable(s2) THEN 0 ELSE 1], s2)

RestoreProblems(s, a, s2) ==
     If(Core(s2) # Core(s), "restore-changed-repository")
  \cup SameBut(s, s2)
  \cup If(a.rc = 0 /\ ~a.exact, "restored-wrong-bytes")
  \cup If(a.rc # 0 /\ ~a.trouble /\ Intact(s, s.revs[a.n].refs) /\ s.revs[a.n].map, "restore-failed")

ReportProblems(s, a, s2) ==
     If(Core(s2) # Core(s) \/ s2.snaps # s.snaps, "report-side-effect")
  \cup If(s2.reports # s.reports \ a.sel, "report-delete-wrong")
  \cup If(a.rc # 0, "report-exit-status")

(* list and check *)
ListProblems(s, a, s2) ==
     If(s2 # s, "list-side-effect")
  \cup If(a.listed # s.reports, "report-list-wrong")
CheckProblems(s, a, s2) ==
     If(s2 # s, "check-side-effect")
  \cup If(a.sla = "ok" /\ a.rc # (IF s.reports = {} THEN 0 ELSE 1), "check-status-wrong")

(* The process was killed during operation a.of.  a.ref are the revisions  *)
(* an undisturbed run of the same operation from the same state leaves (a  *)
(* backup compares random samples: which damage it notices is open).       *)
CrashProblems(s, a, s2) ==
  LET all == DOMAIN s.revs
      p == Cleaned(s)
      kept == IF a.of = "backup" THEN {u \in Complete(s) : Broken(DistrustAll(s), u) = {}}
              ELSE {u \in Complete(s) : u \in DOMAIN a.ref}
      marks(u) == IF u \notin LocalComplete(s) THEN {}
                  ELSE (IF Suspect(p, a) # {} THEN {"distrusted"} ELSE {})
                       \cup (IF Forced(p) /\ Broken(s, u) = {} THEN {"verified"} ELSE {})
      rec(u) == {s.revs[u]} \cup
                (IF a.of = "backup" THEN {[s.revs[u] EXCEPT !.trust = m] : m \in marks(u)}
                 ELSE IF u \in DOMAIN a.ref THEN {a.ref[u]}
                 ELSE \* being removed
                      {[s.revs[u] EXCEPT !.tags = T] : T \in SUBSET s.revs[u].tags})
  IN   If(\E u \in kept : u \notin Complete(s2), "crash-lost-revision")
  \cup If(\E u \in all \cap DOMAIN s2.revs : s2.revs[u].refs # s.revs[u].refs,
          "crash-changed-mapping")
  \cup If(\E u \in kept \cap Complete(s2) : \E c \in s.revs[u].refs :
            Intact(s, {c}) /\ ~Intact(s2, {c}), "crash-lost-chunk")
  \cup If(\E u \in all \cap DOMAIN s2.revs : s2.revs[u] \notin rec(u), "crash-half-done")
  \cup If(~a.valid, "crash-broken-metadata")
  \cup If(\E u \in DOMAIN s2.revs : u \notin all /\ ~(a.of = "backup" /\ u = a.n),
          "revision-appeared")
  \cup If(s2.foreign # s.foreign, "foreign-snapshot-touched")
  \cup If(~(s.reports \subseteq s2.reports), "report-lost")

(* Content of complete revisions: want is the bytes the snapshot had, cont *)
(* what an independent reader decodes.                                     *)
ContentProblems(s2, want, cont) ==
  If(\E u \in LocalComplete(s2) : u \in DOMAIN want /\ s2.revs[u].map
        /\ Intact(s2, s2.revs[u].refs) /\ cont[u] # want[u], "content-wrong")

(* Two operations at the same time, on intact data (see ConcOps).          *)
PairProblems(s, a, s2) ==
     CO!ConcProblems([p \in {"a", "b"} |-> a[p]], s.revs, s2.revs)
  \cup If(\E u \in LocalComplete(s2) : ~Intact(s2, s2.revs[u].refs), "chunk-lost")
  \cup If(a.overlap, "two-backups")
  \cup If(a.dead, "deadlock")
  \cup If(s2.foreign # s.foreign, "foreign-snapshot-touched")
  \cup If(~(s.reports \subseteq s2.reports), "report-lost")
  \cup UNION {If(a[p].op = "restore" /\ a[p].rc = 0 /\ ~a[p].exact, "restored-wrong-bytes") : p \in {"a", "b"}}
  \cup UNION {If(a[p].op = "restore" /\ a[p].rc # 0 /\ a[p].n \in Complete(s2)
                  \* (a history in which revisions vanish may be unreadable for a moment)
                  /\ \A q \in {"a", "b"} : a[q].op \in {"restore", "gc", "distrust"}, "restore-failed") : p \in {"a", "b"}}

Problems(s, a, s2) ==
  CASE a.op = "pair" -> PairProblems(s, a, s2)
    [] a.op = "backup" -> BackupProblems(s, a, s2)
    [] a.op = "gc" -> GcProblems(s, a, s2)
    [] a.op = "verify" -> VerifyProblems(s, a, s2)
    [] a.op = "rm" -> RmProblems(s, a, s2)
    [] a.op = "distrust" -> DistrustProblems(s, a, s2)
    [] a.op = "tags" -> TagsProblems(s, a, s2)
    [] a.op = "expire" -> ExpireProblems(s, a, s2)
    [] a.op = "restore" -> RestoreProblems(s, a, s2)
    [] a.op = "reports-delete" -> ReportProblems(s, a, s2)
    [] a.op = "reports-list" -> ListProblems(s, a, s2)
    [] a.op = "check" -> CheckProblems(s, a, s2)
    [] a.op = "crash" -> CrashProblems(s, a, s2)
    [] OTHER -> {}   \* environment: image changes, damage, lost snapshots, ...
=============================================================================
