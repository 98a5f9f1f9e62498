------------------------------- MODULE ByteFile -------------------------------
(***************************************************************************)
(* An ordinary random-access file: f = [data (sequence of symbols, 0 is a  *)
(* zero byte), pos, mode].  Positions count from 0.                        *)
(* Operations a: [op, ...]; Apply(f, a) = [f, out, err].                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
Zeros(n) == [i \in 1..MaxI(0, n) |-> 0]
Fit(d, n) == IF n <= Len(d) THEN SubSeq(d, 1, n) ELSE d \o Zeros(n - Len(d))
Over(d, p, w) ==   \* w written at position p (w not empty)
  LET b == Fit(d, MaxI(Len(d), p + Len(w)))
  IN  [i \in 1..Len(b) |-> IF i > p /\ i <= p + Len(w) THEN w[i - p] ELSE b[i]]

CanRead(m) == m \in {"r", "rw", "r+", "rb"}
CanWrite(m) == m \in {"rw", "w", "wb", "r+", "a"}

(* Opening keeps the stored data (no mode truncates); "a" starts at the    *)
(* end.  stored is the data on disk, or the string "none".                 *)
OpenFile(stored, exists, m) ==
  IF ~exists /\ ~CanWrite(m) THEN [f |-> [data |-> <<>>, pos |-> 0, mode |-> "closed"], err |-> TRUE]
  ELSE LET d == IF exists THEN stored ELSE <<>>
       IN  [f |-> [data |-> d, pos |-> IF m = "a" THEN Len(d) ELSE 0, mode |-> m], err |-> FALSE]

Same(f) == [f |-> f, out |-> <<>>, err |-> FALSE]
Fails(f) == [f |-> f, out |-> <<>>, err |-> TRUE]

Apply(f, a) ==
  CASE a.op = "seek" ->
         \* whence 2 counts backwards from the end; seeking past the end of
         \* a writable file extends it with zeroes
         LET p == IF a.whence = 0 THEN a.n ELSE IF a.whence = 1 THEN f.pos + a.n ELSE Len(f.data) - a.n
         IN  IF p < 0 THEN Fails(f)
             ELSE IF p > Len(f.data)
                  THEN IF CanWrite(f.mode)
                       THEN [f |-> [f EXCEPT !.pos = p, !.data = Fit(f.data, p)], out |-> <<p>>, err |-> FALSE]
                       ELSE Fails(f)
             ELSE [f |-> [f EXCEPT !.pos = p], out |-> <<p>>, err |-> FALSE]
    [] a.op = "tell" -> [f |-> f, out |-> <<f.pos>>, err |-> FALSE]
    [] a.op = "read" ->
         IF ~CanRead(f.mode) THEN Fails(f)
         ELSE LET rest == MaxI(0, Len(f.data) - f.pos)
                  n == IF a.n = -1 THEN rest ELSE MinI(a.n, rest)
              IN  [f |-> [f EXCEPT !.pos = @ + n], out |-> SubSeq(f.data, f.pos + 1, f.pos + n), err |-> FALSE]
    [] a.op = "write" ->
         IF ~CanWrite(f.mode) THEN Fails(f)
         ELSE IF a.data = <<>> THEN Same(f)
         ELSE Same([f EXCEPT !.data = Over(f.data, f.pos, a.data), !.pos = @ + Len(a.data)])
    [] a.op = "truncate" ->      \* n = -1: at the current position
         IF ~CanWrite(f.mode) THEN Fails(f)
         ELSE Same([f EXCEPT !.data = Fit(f.data, IF a.n = -1 THEN f.pos ELSE a.n)])
    [] a.op = "flush" -> IF ~CanWrite(f.mode) THEN Fails(f) ELSE Same(f)
    [] a.op = "close" -> Same([f EXCEPT !.mode = "closed"])
    [] OTHER -> Same(f)
=============================================================================
