--------------------------------- MODULE Diff ---------------------------------
(***************************************************************************)
(* Change streams between two snapshots of an image.                       *)
(*                                                                         *)
(* An image is a sequence of pieces, each zero (0) or some data (n > 0).   *)
(* A stream is a sequence of tokens:                                       *)
(*   [r |-> "hdr"]  [r |-> "f"|"t", name]  [r |-> "s", n]                   *)
(*   [r |-> "w", a, b, v]  pieces a+1..b get the values v                   *)
(*   [r |-> "z", a, b]     pieces a+1..b become zero                        *)
(*   [r |-> "e"]           the end; what follows is not looked at           *)
(*   [r |-> "bad"]         something no reader understands                  *)
(* A stream that stops before "e" is truncated.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Resize(img, n) == [k \in 1..n |-> IF k <= Len(img) THEN img[k] ELSE 0]
Put(img, a, b, v) ==
  LET n == IF b > a /\ b > Len(img) THEN b ELSE Len(img) IN
  [k \in 1..n |-> IF k > a /\ k <= b THEN v[k - a] ELSE IF k <= Len(img) THEN img[k] ELSE 0]
Zeros(n) == [k \in 1..n |-> 0]

\* the reader: phases "header", "meta", "data", "end", "error"
ReadTok(s, tok, from, to) ==
  CASE s.ph \in {"end", "error"} -> s
    [] s.ph = "header" -> IF tok.r = "hdr" THEN [s EXCEPT !.ph = "meta"] ELSE [s EXCEPT !.ph = "error"]
    [] tok.r = "f" -> IF s.ph = "meta" /\ tok.name = from THEN s ELSE [s EXCEPT !.ph = "error"]
    [] tok.r = "t" -> IF s.ph = "meta" /\ tok.name = to THEN s ELSE [s EXCEPT !.ph = "error"]
    [] tok.r = "s" -> IF s.ph = "meta" THEN [s EXCEPT !.img = Resize(@, tok.n)] ELSE [s EXCEPT !.ph = "error"]
    [] tok.r = "w" -> [s EXCEPT !.ph = "data", !.img = Put(@, tok.a, tok.b, tok.v)]
    [] tok.r = "z" -> [s EXCEPT !.ph = "data", !.img = Put(@, tok.a, tok.b, Zeros(tok.b - tok.a))]
    [] tok.r = "e" -> [s EXCEPT !.ph = "end"]
    [] OTHER -> [s EXCEPT !.ph = "error"]
RECURSIVE ReadFrom(_, _, _, _, _)
ReadFrom(s, st, j, from, to) == IF j > Len(st) THEN s ELSE ReadFrom(ReadTok(s, st[j], from, to), st, j + 1, from, to)
Integrate(old, st, from, to) ==
  LET s == ReadFrom([ph |-> "header", img |-> old], st, 1, from, to) IN
  IF s.ph = "end" THEN [ok |-> TRUE, img |-> s.img] ELSE [ok |-> FALSE, img |-> <<>>]
=============================================================================
