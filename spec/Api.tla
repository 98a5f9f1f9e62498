----------------------------------- MODULE Api -----------------------------------
(***************************************************************************)
(* What a request to the API is answered and what it changes.              *)
(* State s: [tokens: set, jobs: set, dead: set, run: set (jobs asked to    *)
(*  run now), reloads: number, repos: name -> [h: history as in RevSpec,   *)
(*  marker, locked]].  Repositories that vanished since are not in dead.   *)
(* Request r: [auth: the token presented ("" for none or not in the form   *)
(*  of a token), method, route, name, t: revision specification (tokens),  *)
(*  simple: names one revision or a well-formed set, body: [ok, old, new], *)
(*  autoremove, filter: names matching, onlyclean].                        *)
(* Answer: [codes, s, body] - codes: the statuses allowed.                  *)
(***************************************************************************)
EXTENDS Tags

Methods == [status |-> "GET", reload |-> "POST", jobs |-> "GET", run |-> "POST", backups |-> "GET",
            purge |-> "POST", touch |-> "POST", revs |-> "GET", tags |-> "PUT"]
Refusal == 400..599
Empty == [kind |-> "none", v |-> <<>>]
No(s, codes) == [codes |-> codes, s |-> s, body |-> Empty]
Yes(s, code) == [codes |-> {code}, s |-> s, body |-> Empty]
Show(s, body) == [codes |-> {200}, s |-> s, body |-> body]
Known(s) == s.jobs \cup s.dead

SetOp(r) == [action |-> "set", tags |-> r.body.new, hasExpect |-> TRUE, expect |-> r.body.old,
             autoremove |-> r.autoremove, force |-> TRUE]
PutTags(s, r) ==
  IF ~r.body.ok THEN No(s, Refusal)
  ELSE IF r.name \in s.dead
  THEN LET p == s.repos[r.name]
           m == Many(p.h, r.t)
           e == Edit(p.h, r.t, SetOp(r), {}, {})
       IN  IF p.locked THEN No(s, {503} \cup IF m.ok THEN {} ELSE Refusal)
           ELSE IF ~m.ok THEN No(s, IF r.simple THEN {404} ELSE Refusal)
           ELSE IF ~e.ok THEN No(s, {412})
           ELSE Yes([s EXCEPT !.repos[r.name].h = e.h], 204)
  ELSE IF r.name \in s.jobs THEN No(s, {403}) ELSE No(s, {404})

Offer(s, r) == LET h == IF r.name \in DOMAIN s.repos THEN s.repos[r.name].h ELSE <<>>
                   q == Sel(h, LAMBDA j : h[j].server = "" /\ (r.onlyclean => h[j].clean))
               IN  [j \in 1..Len(q) |-> h[q[j]].u]

Handle(s, r) ==
  CASE r.route = "status" -> Show(s, [kind |-> "set", v |-> r.filter \cap s.jobs])
    [] r.route = "jobs" -> Show(s, [kind |-> "set", v |-> s.jobs])
    [] r.route = "backups" -> Show(s, [kind |-> "dead", v |-> s.dead])
    [] r.route = "reload" -> Yes([s EXCEPT !.reloads = @ + 1], 204)
    [] r.route = "run" -> IF r.name \in s.jobs THEN Yes([s EXCEPT !.run = @ \cup {r.name}], 202) ELSE No(s, {404})
    [] r.route = "purge" -> IF r.name \in s.dead THEN Yes([s EXCEPT !.repos[r.name].marker = TRUE], 202)
                            ELSE No(s, IF r.name \in s.jobs THEN {403} ELSE {404})
    [] r.route = "touch" -> IF r.name \in Known(s) THEN Yes(s, 204) ELSE No(s, {404})
    [] r.route = "revs" -> IF r.name \in Known(s) THEN Show(s, [kind |-> "seq", v |-> Offer(s, r)]) ELSE No(s, {404})
    [] r.route = "tags" -> PutTags(s, r)

Answer(s, r) ==
  IF r.auth \notin s.tokens THEN No(s, {401})
  ELSE IF r.route = "other" THEN No(s, Refusal)
  ELSE IF r.method = Methods[r.route] THEN Handle(s, r)
  ELSE IF r.method = "HEAD" /\ Methods[r.route] = "GET" THEN [Handle(s, r) EXCEPT !.body = Empty]
  ELSE No(s, Refusal)
(* what may get a newer time stamp: existing repositories asked for it, and those changed *)
MayTouch(s, r, a) ==
  IF r.auth \in s.tokens /\ r.route \in {"touch", "purge", "tags", "revs"} /\ r.name \in Known(s) /\ r.method = Methods[r.route]
     /\ (r.name \in s.dead \/ r.route \in {"touch", "revs"})
  THEN {r.name} ELSE {}
MustTouch(s, r, a) == IF r.route = "touch" /\ 204 \in a.codes THEN {r.name} ELSE {}
=============================================================================
