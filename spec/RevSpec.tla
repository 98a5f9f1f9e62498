-------------------------------- MODULE RevSpec --------------------------------
(***************************************************************************)
(* The meaning of revision specifications, as documented (man page).       *)
(* H: the history, oldest first: sequence of                               *)
(*    [u, t, tags, trust, server, clean]                                   *)
(* A specification is a sequence of tokens [k, v, n]:                      *)
(*    sym   ( ) , & ..        word  all clean local remote first last ...  *)
(*    num, id, tag, trust, server, date (n a time), junk                   *)
(* The value of a specification is a sequence of positions in H.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Err == [ok |-> FALSE, q |-> <<>>, i |-> 0]
Ok(q, i) == [ok |-> TRUE, q |-> q, i |-> i]
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>>
           ELSE LET r == Uniq(SubSeq(s, 1, Len(s) - 1)) l == s[Len(s)]
                IN  IF \E j \in 1..Len(r) : r[j] = l THEN r ELSE Append(r, l)
Elem(s) == {s[j] : j \in DOMAIN s}
Functions == {"first", "last", "not", "reverse"}
Trusts == {"trusted", "distrusted", "verified"}
All(H) == [j \in 1..Len(H) |-> j]
Sel(H, P(_)) == SelectSeq(All(H), P)

Is(T, i, kind, val) == i >= 1 /\ i <= Len(T) /\ T[i].k = kind /\ T[i].v = val
Sym(T, i, v) == Is(T, i, "sym", v)

(* What one word alone selects *)
Atom(H, a) ==
  CASE a.k = "word" /\ a.v = "all" -> Ok(All(H), 0)
    [] a.k = "word" /\ a.v = "clean" -> Ok(Sel(H, LAMBDA j : H[j].clean), 0)
    [] a.k = "word" /\ a.v = "local" -> Ok(Sel(H, LAMBDA j : H[j].server = ""), 0)
    [] a.k = "word" /\ a.v = "remote" -> Ok(Sel(H, LAMBDA j : H[j].server # ""), 0)
    [] a.k = "word" /\ a.v \in {"last", "latest"} /\ H # <<>> -> Ok(<<Len(H)>>, 0)
    [] a.k = "word" /\ a.v = "first" /\ H # <<>> -> Ok(<<1>>, 0)
    [] a.k = "num" /\ a.n >= 0 /\ a.n < Len(H) -> Ok(<<Len(H) - a.n>>, 0)
    [] a.k = "id" /\ (\E j \in 1..Len(H) : H[j].u = a.v) -> Ok(Sel(H, LAMBDA j : H[j].u = a.v), 0)
    [] a.k = "tag" -> Ok(Sel(H, LAMBDA j : a.v \in H[j].tags), 0)
    [] a.k = "trust" /\ a.v \in Trusts -> Ok(Sel(H, LAMBDA j : H[j].trust = a.v), 0)
    [] a.k = "server" -> Ok(Sel(H, LAMBDA j : H[j].server = a.v), 0)
    [] OTHER -> Err
SingleAtom(a) == a.k \in {"num", "id"} \/ (a.k = "word" /\ a.v \in {"first", "last", "latest"})

Apply(H, f, q) ==
  CASE f = "first" -> IF q = <<>> THEN Err ELSE Ok(<<q[1]>>, 0)
    [] f = "last" -> IF q = <<>> THEN Err ELSE Ok(<<q[Len(q)]>>, 0)
    [] f = "not" -> Ok(Sel(H, LAMBDA j : j \notin Elem(q)), 0)
    [] f = "reverse" -> Ok(Reverse(q), 0)

(* Twice the position of a date: odd between two revisions *)
DatePos(H, t) == 2 * Cardinality({j \in 1..Len(H) : H[j].t < t})
                 + (IF \E j \in 1..Len(H) : H[j].t = t THEN 2 ELSE 1)

(* evaluates v once *)
Bind(v, Op(_)) == CHOOSE r \in {Op(x) : x \in {v}} : TRUE

RECURSIVE List(_, _, _), Inter(_, _, _), Item(_, _, _), Term(_, _, _), Bound(_, _, _)
List(H, T, i) ==
  Bind(Inter(H, T, i), LAMBDA a :
    IF a.ok /\ Sym(T, a.i, ",")
    THEN Bind(List(H, T, a.i + 1), LAMBDA b : IF b.ok THEN Ok(Uniq(a.q \o b.q), b.i) ELSE Err)
    ELSE a)
Inter(H, T, i) ==
  Bind(Item(H, T, i), LAMBDA a :
    IF a.ok /\ Sym(T, a.i, "&")
    THEN Bind(Inter(H, T, a.i + 1), LAMBDA b :
           IF b.ok THEN Ok(SelectSeq(a.q, LAMBDA j : j \in Elem(b.q)), b.i) ELSE Err)
    ELSE a)
(* the end of a range: q holds twice a position *)
Bound(H, T, i) ==
  IF i > Len(T) THEN Err
  ELSE IF T[i].k = "date" THEN Ok(<<DatePos(H, T[i].n)>>, i + 1)
  ELSE IF (Is(T, i, "word", "first") \/ Is(T, i, "word", "last")) /\ Sym(T, i + 1, "(")
  THEN Bind(Term(H, T, i), LAMBDA x : IF x.ok THEN Ok(<<2 * x.q[1]>>, x.i) ELSE Err)
  ELSE IF SingleAtom(T[i])
  THEN Bind(Atom(H, T[i]), LAMBDA x : IF x.ok THEN Ok(<<2 * x.q[1]>>, i + 1) ELSE Err)
  ELSE Err
FirstPos(H, i) == IF H = <<>> THEN Err ELSE Ok(<<2>>, i)
LastPos(H, i) == IF H = <<>> THEN Err ELSE Ok(<<2 * Len(H)>>, i)
RangeEnd(H, T, o) ==
  IF o > Len(T) \/ Sym(T, o, ",") \/ Sym(T, o, "&") \/ Sym(T, o, ")") THEN LastPos(H, o)
  ELSE Bound(H, T, o)
Between(H, x, y) ==
  LET lo == IF x < y THEN x ELSE y
      hi == IF x < y THEN y ELSE x
  IN  Sel(H, LAMBDA j : lo <= 2 * j /\ 2 * j <= hi)
Item(H, T, i) ==
  Bind(IF Sym(T, i, "..") THEN FirstPos(H, i) ELSE Bound(H, T, i), LAMBDA b :
    IF Sym(T, i, "..") /\ ~b.ok THEN Err
    ELSE IF b.ok /\ Sym(T, b.i, "..")
    THEN Bind(RangeEnd(H, T, b.i + 1), LAMBDA e :
           IF e.ok THEN Ok(Between(H, b.q[1], e.q[1]), e.i) ELSE Err)
    ELSE Term(H, T, i))
Term(H, T, i) ==
  IF i > Len(T) THEN Err
  ELSE IF Sym(T, i, "(")
  THEN Bind(List(H, T, i + 1), LAMBDA a :
         IF a.ok /\ Sym(T, a.i, ")") THEN Ok(a.q, a.i + 1) ELSE Err)
  ELSE IF T[i].k = "word" /\ T[i].v \in Functions /\ Sym(T, i + 1, "(")
  THEN Bind(List(H, T, i + 2), LAMBDA a :
         Bind(IF a.ok /\ Sym(T, a.i, ")") THEN Apply(H, T[i].v, a.q) ELSE Err, LAMBDA r :
           IF r.ok THEN Ok(r.q, a.i + 1) ELSE Err))
  ELSE Bind(Atom(H, T[i]), LAMBDA r : IF r.ok THEN Ok(r.q, i + 1) ELSE Err)

(* A specification of any number of revisions *)
Many(H, T) == LET r == List(H, T, 1) IN IF r.ok /\ r.i = Len(T) + 1 THEN r ELSE Err
(* A specification of a single revision *)
Single(H, T) ==
  IF H = <<>> \/ T = <<>> \/ T[1].k = "date" THEN Err
  ELSE LET r == Bound(H, T, 1) IN
       IF r.ok /\ r.i = Len(T) + 1 THEN Ok(<<r.q[1] \div 2>>, r.i) ELSE Err
(* Dates which several revisions share may be refused in ranges *)
Refusable(H, T) == \E i \in DOMAIN T : T[i].k = "date"
                     /\ Cardinality({j \in 1..Len(H) : H[j].t = T[i].n}) > 1
=============================================================================
