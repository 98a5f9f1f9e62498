------------------------------- MODULE ApiTrace --------------------------------
(***************************************************************************)
(* Requests answered by the real API.  A case:                             *)
(*  [s0, r, s1, code, body, touched, other, gone]                          *)
(*  other: anything else in the base directory changed                     *)
(*  gone: repositories which vanished without a reload                     *)
(***************************************************************************)
EXTENDS Api, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
VARIABLES t, i
Hist(h) == [j \in 1..Len(h) |-> [h[j] EXCEPT !.tags = Elem(@)]]
St(s) == [tokens |-> Elem(s.tokens), jobs |-> Elem(s.jobs), dead |-> Elem(s.dead), run |-> Elem(s.run), reloads |-> s.reloads,
          repos |-> [x \in DOMAIN s.repos |-> [s.repos[x] EXCEPT !.h = Hist(@)]]]
Rq(r) == [r EXCEPT !.body = [ok |-> @.ok, old |-> Elem(@.old), new |-> Elem(@.new)], !.filter = Elem(@)]
BodyOk(c, b) ==
  CASE b.kind = "none" -> TRUE
    [] b.kind = "set" -> Elem(c.body) = b.v
    [] b.kind = "dead" -> b.v \subseteq Elem(c.body) /\ Elem(c.body) \subseteq b.v \cup Elem(c.gone)
    [] b.kind = "seq" -> c.body = b.v
Bad(c) ==
  LET s0 == St(c.s0) s1 == St(c.s1) r == Rq(c.r)
      a == Answer(s0, r)
      no == r.auth \notin s0.tokens
      reload == r.route = "reload" /\ 204 \in a.codes
      D0 == DOMAIN a.s.repos
      D1 == DOMAIN s1.repos
      changed == {x \in D0 \cap D1 : s1.repos[x] # a.s.repos[x]} \cup (D0 \ D1) \cup (D1 \ D0)
  IN  (IF c.code \in a.codes THEN {} ELSE {IF no THEN "served-without-token" ELSE IF c.code = 401 THEN "token-refused" ELSE "wrong-answer"})
      \cup (IF c.code \in a.codes /\ ~BodyOk(c, a.body) THEN {"wrong-contents"} ELSE {})
      \cup (IF changed # {} THEN {IF no THEN "changed-without-token" ELSE IF changed \ {r.name} # {} THEN "changed-another"
                                  ELSE IF a.codes \cap Refusal # {} THEN "refused-but-changed" ELSE "wrong-change"} ELSE {})
      \cup (IF s1.run # a.s.run THEN {"wrong-run"} ELSE {})
      \cup (IF s1.reloads # a.s.reloads THEN {"wrong-reload"} ELSE {})
      \cup (IF ~reload /\ c.other THEN {"other-change"} ELSE {})
      \cup (IF ~reload /\ Elem(c.touched) \ MayTouch(s0, r, a) # {} THEN {"wrongly-touched"} ELSE {})
      \cup (IF MustTouch(s0, r, a) \ Elem(c.touched) # {} THEN {"not-touched"} ELSE {})
TraceInit == t \in DOMAIN Data /\ i = 0
Step == /\ i = 0
        /\ \A k \in DOMAIN Data[t] : \A p \in Bad(Data[t][k]) :
             PrintT("@@" \o ToJson([t |-> t, i |-> k, k |-> p, op |-> Data[t][k].r.route]))
        /\ PrintT("@@" \o ToJson([t |-> t, i |-> 0, k |-> "DONE", op |-> ""]))
        /\ i' = 1 /\ UNCHANGED t
TraceSpec == TraceInit /\ [][Step]_<<t, i>>
=============================================================================
