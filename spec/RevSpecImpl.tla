----------------------------- MODULE RevSpecImpl -----------------------------
(* The resolution of specifications as implemented: innermost parentheses    *)
(* are replaced by their value first, then the list is split at operators.   *)
(* TLC compares it with the documented meaning for all short specifications. *)
EXTENDS RevSpec, FiniteSetsExt, TLC
CONSTANTS MaxLen, Bug

S(v) == [k |-> "sym", v |-> v, n |-> 0]
W(v) == [k |-> "word", v |-> v, n |-> 0]
R(u, t, tags, trust, server, clean) ==
  [u |-> u, t |-> t, tags |-> tags, trust |-> trust, server |-> server, clean |-> clean]
Hists == {<<>>,
          <<R("a", 10, {"x"}, "trusted", "", TRUE)>>,
          <<R("a", 10, {"x"}, "trusted", "", TRUE), R("b", 20, {"x", "y"}, "verified", "s", TRUE),
            R("c", 30, {"y"}, "trusted", "", FALSE)>>}
Vocab == {S("("), S(")"), S(","), S("&"), S(".."), W("all"), W("local"), W("first"), W("last"),
          W("not"), W("reverse"), [k |-> "num", v |-> "", n |-> 1], [k |-> "tag", v |-> "x", n |-> 0],
          [k |-> "date", v |-> "", n |-> 20], [k |-> "date", v |-> "", n |-> 15]}

Pos(T, v) == {i \in DOMAIN T : T[i].k = "sym" /\ T[i].v = v}
V(q) == [k |-> "list", v |-> "", n |-> q]
RECURSIVE F(_, _), Index(_, _)
Index(H, T) ==   \* twice the position
  IF Len(T) # 1 THEN Err
  ELSE IF T[1].k = "list" THEN Err
  ELSE IF T[1].k = "rev" THEN Ok(<<2 * T[1].n>>, 0)
  ELSE IF T[1].k = "date" THEN Ok(<<DatePos(H, T[1].n)>>, 0)
  ELSE IF ~SingleAtom(T[1]) THEN Err
  ELSE LET x == Atom(H, T[1]) IN IF x.ok THEN Ok(<<2 * x.q[1]>>, 0) ELSE Err
F(H, T) ==
  IF Pos(T, "(") # {} /\ Pos(T, ")") # {}
  THEN LET i == Max(Pos(T, "("))
           js == {j \in Pos(T, ")") : j > i} IN
       IF js = {} THEN Err
       ELSE LET j == Min(js)
                mid == F(H, SubSeq(T, i + 1, j - 1))
                rest == SubSeq(T, j + 1, Len(T))
                fn == i > 1 /\ T[i - 1].k = "word" /\ T[i - 1].v \in Functions
            IN  IF ~mid.ok THEN Err
                ELSE IF fn THEN
                  LET a == Apply(H, T[i - 1].v, mid.q)
                      val == IF T[i - 1].v \in {"first", "last"} /\ Bug # "single"
                             THEN [k |-> "rev", v |-> "", n |-> a.q[1]] ELSE V(a.q)
                  IN  IF a.ok THEN F(H, Append(SubSeq(T, 1, i - 2), val) \o rest) ELSE Err
                ELSE F(H, Append(SubSeq(T, 1, i - 1), V(mid.q)) \o rest)
  ELSE IF Pos(T, ",") # {}
  THEN LET i == Min(Pos(T, ","))
           a == F(H, SubSeq(T, 1, i - 1)) b == F(H, SubSeq(T, i + 1, Len(T)))
       IN  IF a.ok /\ b.ok THEN Ok(IF Bug = "union" THEN a.q \o b.q ELSE Uniq(a.q \o b.q), 0) ELSE Err
  ELSE IF Pos(T, "&") # {}
  THEN LET i == Min(Pos(T, "&"))
           a == F(H, SubSeq(T, 1, i - 1)) b == F(H, SubSeq(T, i + 1, Len(T)))
       IN  IF a.ok /\ b.ok
           THEN Ok(SelectSeq(IF Bug = "order" THEN b.q ELSE a.q, LAMBDA j : j \in (Elem(a.q) \cap Elem(b.q))), 0)
           ELSE Err
  ELSE IF Pos(T, "..") # {}
  THEN IF Cardinality(Pos(T, "..")) # 1 THEN Err
       ELSE LET i == Min(Pos(T, ".."))
                a == IF i = 1 THEN Index(H, <<W("first")>>) ELSE Index(H, SubSeq(T, 1, i - 1))
                b == IF i = Len(T) THEN Index(H, <<W("last")>>) ELSE Index(H, SubSeq(T, i + 1, Len(T)))
            IN  IF a.ok /\ b.ok
                THEN Ok(Sel(H, LAMBDA j : Min({a.q[1], b.q[1]}) <= 2 * j
                                         /\ (IF Bug = "range" THEN 2 * j < Max({a.q[1], b.q[1]})
                                             ELSE 2 * j <= Max({a.q[1], b.q[1]}))), 0)
                ELSE Err
  ELSE IF Len(T) # 1 THEN Err
  ELSE IF T[1].k = "rev" THEN Ok(<<T[1].n>>, 0)
  ELSE IF T[1].k = "list" THEN Ok(T[1].n, 0)
  ELSE Atom(H, T[1])

VARIABLES h, toks
Init == h \in Hists /\ toks = <<>>
Next == Len(toks) < MaxLen /\ \E a \in Vocab : toks' = Append(toks, a) /\ UNCHANGED h
Spec == Init /\ [][Next]_<<h, toks>>
Agree == LET a == F(h, toks) b == Many(h, toks) IN a.ok = b.ok /\ a.q = b.q
(* sanity of the meaning itself *)
NoDuplicates == LET b == Many(h, toks) IN Cardinality(Elem(b.q)) = Len(b.q)
=============================================================================
