------------------------------ MODULE ChunkFile ------------------------------
(***************************************************************************)
(* The chunked file as implemented: a mapping from chunk numbers to stored *)
(* chunks (identified by their content), a size, and a cache of chunks     *)
(* being worked on, from which the less used ones are evicted.  TLC checks *)
(* that it refines ByteFile; its behaviours are replayed on the real code. *)
(*                                                                         *)
(* Bugs: "grow" truncate does not fill when growing; "gap" no filling when *)
(* writing after the end; "stalepos" reading past the end; "evict" evicted *)
(* chunks are not written; "short" a chunk written partially is not read   *)
(* first.  "cutoff" (chunks after the end stay in the mapping) is harmless *)
(* here: whatever makes the file grow again overwrites them.               *)
(***************************************************************************)
EXTENDS ByteFile, FiniteSets, TLC, Json
CONSTANTS C, MaxSize, Target, MaxOps, Bugs, Gen
VARIABLES f,        \* the ordinary file
          disk,     \* its stored data
          mp, size, pos,  \* implementation: mapping, size, position
          cache,    \* chunk number -> [data, clean]
          use,      \* chunk numbers, most recently used first
          dmp, dsize, \* mapping file on disk
          ok, n, hist

vars == <<f, disk, mp, size, pos, cache, use, dmp, dsize, ok, n, hist>>
view == <<f, disk, mp, size, pos, cache, use, dmp, dsize, ok, n>>
Bug(b) == b \in Bugs
Without(fn, S) == [x \in (DOMAIN fn) \ S |-> fn[x]]

(* an implementation state as a record, to compose steps *)
St == [mp |-> mp, size |-> size, pos |-> pos, cache |-> cache, use |-> use]
Evict(s, keep) ==
  IF keep > 0 /\ Cardinality(DOMAIN s.cache) < 2 * keep THEN s
  ELSE LET hot == {s.use[i] : i \in 1..MinI(keep, Len(s.use))}
           out == (DOMAIN s.cache) \ hot
           dirty == {k \in out : ~s.cache[k].clean}
       IN  [s EXCEPT !.mp = IF Bug("evict") /\ keep > 0 THEN s.mp
                            ELSE [k \in dirty |-> s.cache[k].data] @@ s.mp,
                     !.cache = Without(s.cache, out),
                     !.use = SelectSeq(s.use, LAMBDA k : k \notin out)]
Touch(s, k) == [s EXCEPT !.use = <<k>> \o SelectSeq(s.use, LAMBDA x : x # k)]
Loaded(s, k) ==
  IF k \in DOMAIN s.cache THEN Touch(s, k)
  ELSE LET e == Evict(s, Target)
           d == IF k \in DOMAIN e.mp THEN e.mp[k] ELSE <<>>
       IN  Touch([e EXCEPT !.cache = (k :> [data |-> d, clean |-> TRUE]) @@ e.cache], k)

RECURSIVE AWrite(_, _)
AWrite(s, w) ==
  IF w = <<>> THEN s
  ELSE LET k == s.pos \div C
           o == s.pos % C
           m == MinI(Len(w), C - o)
           l == Loaded(s, k)
           old == IF Bug("short") /\ l.cache[k].clean THEN Zeros(o) ELSE l.cache[k].data
           new == IF o = 0 /\ m = C THEN SubSeq(w, 1, m) ELSE Over(old, o, SubSeq(w, 1, m))
           p == s.pos + m
       IN  AWrite([l EXCEPT !.cache[k] = [data |-> new, clean |-> FALSE],
                            !.pos = p, !.size = MaxI(@, p)], SubSeq(w, m + 1, Len(w)))
ASeek(s, p) == IF p > s.size THEN AWrite([s EXCEPT !.pos = s.size], Zeros(p - s.size))
               ELSE [s EXCEPT !.pos = p]
RECURSIVE ARead(_, _, _)
ARead(s, m, acc) ==
  IF m <= 0 THEN [s |-> s, out |-> acc]
  ELSE LET k == s.pos \div C
           o == s.pos % C
           l == Loaded(s, k)
           d == l.cache[k].data
           got == SubSeq(d, o + 1, MinI(Len(d), o + m))
       IN  IF got = <<>> THEN [s |-> s, out |-> <<-1>>]
           ELSE ARead([l EXCEPT !.pos = @ + Len(got)], m - Len(got), acc \o got)
ATruncate(s, m) ==
  LET g == IF m > s.size /\ ~Bug("grow") THEN [ASeek(s, m) EXCEPT !.pos = s.pos] ELSE s
      h == [g EXCEPT !.size = m,
                     !.mp = IF Bug("cutoff") THEN g.mp ELSE Without(g.mp, {k \in DOMAIN g.mp : k * C > m})]
  IN  Evict(h, 0)

Content(m, sz) ==
  [i \in 1..sz |-> LET k == (i - 1) \div C IN
     IF k \in DOMAIN m /\ ((i - 1) % C) < Len(m[k]) THEN m[k][((i - 1) % C) + 1] ELSE -1]

Init ==
  /\ f = [data |-> <<>>, pos |-> 0, mode |-> "rw"] /\ disk = <<>>
  /\ mp = <<>> /\ size = 0 /\ pos = 0 /\ cache = <<>> /\ use = <<>>
  /\ dmp = <<>> /\ dsize = 0 /\ ok = TRUE /\ n = 0 /\ hist = <<[op |-> "open", mode |-> "rw", n |-> 0, whence |-> 0, data |-> <<>>]>>

Set(s) == /\ mp' = s.mp /\ size' = s.size /\ pos' = s.pos /\ cache' = s.cache /\ use' = s.use
Store(s) == dmp' = s.mp /\ dsize' = s.size
Ops ==
  {[op |-> "seek", n |-> k, whence |-> w, data |-> <<>>] : k \in {0, 1, C, MaxSize - 1}, w \in {0, 2}}
  \cup {[op |-> "read", n |-> k, whence |-> 0, data |-> <<>>] : k \in {-1, 1, C + 1}}
  \cup {[op |-> "write", n |-> 0, whence |-> 0, data |-> d] : d \in {<<1>>, <<2, 2>>, <<1, 1, 2>>}}
  \cup {[op |-> "truncate", n |-> k, whence |-> 0, data |-> <<>>] : k \in {-1, 0, 1, C, C + 1, MaxSize - 1}}
  \cup {[op |-> "flush", n |-> 0, whence |-> 0, data |-> <<>>]}

Do(a) ==
  LET r == Apply(f, a) IN
  /\ f.mode = "rw" /\ n < MaxOps /\ ~r.err
  /\ Len(r.f.data) <= MaxSize /\ r.f.pos <= MaxSize
  /\ f' = r.f /\ n' = n + 1
  /\ hist' = IF Gen THEN Append(hist, a) ELSE hist
  /\ CASE a.op = "seek" ->
            LET p == IF a.whence = 0 THEN a.n ELSE size - a.n IN Set(ASeek(St, p)) /\ ok' = TRUE /\ UNCHANGED <<disk, dmp, dsize>>
       [] a.op = "read" ->
            LET rest == IF Bug("stalepos") /\ a.n = -1 /\ pos > size THEN C ELSE MaxI(0, size - pos)
                x == ARead(St, IF a.n = -1 THEN rest ELSE MinI(a.n, rest), <<>>)
            IN  Set(x.s) /\ ok' = (x.out = r.out) /\ UNCHANGED <<disk, dmp, dsize>>
       [] a.op = "write" ->
            LET s == IF pos > size /\ ~Bug("gap") THEN ASeek(St, pos) ELSE St
            IN  Set(AWrite(s, a.data)) /\ ok' = TRUE /\ UNCHANGED <<disk, dmp, dsize>>
       [] a.op = "truncate" ->
            LET s == ATruncate(St, IF a.n = -1 THEN pos ELSE a.n)
            IN  Set(s) /\ Store(s) /\ disk' = r.f.data /\ ok' = TRUE
       [] OTHER -> LET s == Evict(St, 0) IN Set(s) /\ Store(s) /\ disk' = r.f.data /\ ok' = TRUE
Reopen ==
  /\ n < MaxOps /\ n' = n + 1
  /\ LET s == Evict(St, 0) IN
     /\ Store(s) /\ mp' = s.mp /\ size' = s.size /\ pos' = 0 /\ cache' = <<>> /\ use' = <<>>
  /\ disk' = f.data /\ f' = [f EXCEPT !.pos = 0] /\ ok' = TRUE
  /\ hist' = IF Gen THEN hist \o <<[op |-> "close", n |-> 0, whence |-> 0, data |-> <<>>],
                                   [op |-> "open", mode |-> "rw", n |-> 0, whence |-> 0, data |-> <<>>]>> ELSE hist
Next == (\E a \in Ops : Do(a)) \/ Reopen
Spec == Init /\ [][Next]_vars

(* the file as it could be read now *)
Now == LET s == Evict(St, 0) IN Content(s.mp, s.size)
Refines == /\ ok /\ size = Len(f.data) /\ pos = f.pos
           /\ Now = f.data
           /\ Content(dmp, dsize) = disk
GenPrint == Gen /\ n = MaxOps => PrintT("@@" \o ToJson(hist))
=============================================================================
