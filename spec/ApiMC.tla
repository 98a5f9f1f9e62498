---------------------------------- MODULE ApiMC ----------------------------------
(***************************************************************************)
(* (1) Reloads reaching the API: the configuration changes at any time, the *)
(* API applies it in steps (tokens, then addresses, which may fail), and    *)
(* waits for the next change.  Which tokens are accepted when all is quiet? *)
(* (2) All requests on small repositories: nobody without a token changes   *)
(* anything; active repositories are only touched.                          *)
(***************************************************************************)
EXTENDS Api

CONSTANTS ClearFirst, \* the notice of a change is taken back before applying it
          Survive,    \* a failure to listen does not end the loop
          MaxReload, Names
VARIABLES conf, api, event, pc, n, s, last

vars == <<conf, api, event, pc, n, s, last>>
Toks == {"A", "B"}
R(u, tags, srv, cl) == [u |-> u, t |-> 1, tags |-> tags, trust |-> "trusted", server |-> srv, clean |-> cl]
Hists == {<<>>, <<R("x", {"m"}, "", TRUE)>>, <<R("x", {"m"}, "", TRUE), R("y", {"m"}, "p", TRUE)>>,
          <<R("x", {"m"}, "", TRUE), R("z", {"k"}, "", FALSE)>>}
Specs == {<<[k |-> "id", v |-> "x", n |-> 0]>>, <<[k |-> "id", v |-> "q", n |-> 0]>>,
          <<[k |-> "word", v |-> "all", n |-> 0]>>, <<[k |-> "word", v |-> "last", n |-> 0]>>}
Bodies == {[ok |-> o, old |-> a, new |-> b] : o \in BOOLEAN, a \in {{"m"}, {"k"}}, b \in {{}, {"k"}}}
Base == [auth |-> "A", method |-> "GET", route |-> "status", name |-> "", t |-> <<>>, simple |-> TRUE,
         body |-> [ok |-> TRUE, old |-> {}, new |-> {}], autoremove |-> FALSE, filter |-> Names, onlyclean |-> TRUE]
Auths == {"A", "B", ""}
Requests ==
  {[Base EXCEPT !.auth = a, !.method = m, !.route = o, !.name = x] :
     a \in Auths, m \in {"GET", "POST", "PUT", "HEAD"}, o \in DOMAIN Methods \cup {"other"}, x \in Names \cup {"?"}}
  \cup {[Base EXCEPT !.auth = a, !.method = "PUT", !.route = "tags", !.name = x, !.t = t, !.body = b, !.autoremove = ar] :
     a \in Auths, x \in Names \cup {"?"}, t \in Specs, b \in Bodies, ar \in BOOLEAN}

Init == /\ conf = {"A"} /\ api = {"A"} /\ event = FALSE /\ pc = "wait" /\ n = 0
        /\ s \in {[tokens |-> {"A"}, jobs |-> j, dead |-> Names \ j, run |-> {}, reloads |-> 0,
                   repos |-> [x \in Names |-> [h |-> f[x], marker |-> FALSE, locked |-> l = x]]] :
                   j \in SUBSET Names, f \in [Names -> Hists], l \in Names \cup {"?"}}
        /\ last = [r |-> Base, a |-> No(s, {}), old |-> s]
Reload(c) == /\ n < MaxReload /\ last.a.codes = {} /\ n' = n + 1
             /\ conf' = c /\ event' = TRUE /\ UNCHANGED <<api, pc, s, last>>
Wake == /\ pc = "wait" /\ event /\ pc' = "set"
        /\ event' = IF ClearFirst THEN FALSE ELSE event
        /\ UNCHANGED <<conf, api, n, s, last>>
Apply1 == /\ pc = "set" /\ api' = conf /\ pc' = "listen" /\ UNCHANGED <<conf, event, n, s, last>>
Listening(good) == /\ pc = "listen" /\ pc' = IF good \/ Survive THEN "clear" ELSE "dead"
                   /\ UNCHANGED <<conf, api, event, n, s, last>>
Clear == /\ pc = "clear" /\ pc' = "wait" /\ event' = IF ClearFirst THEN event ELSE FALSE
         /\ UNCHANGED <<conf, api, n, s, last>>
Request(r) == /\ n = 0 /\ last.r = Base /\ last.a.codes = {}
              /\ LET a == Answer(s, r) IN s' = a.s /\ last' = [r |-> r, a |-> a, old |-> s]
              /\ UNCHANGED <<conf, api, event, pc, n>>
Next == \/ \E c \in SUBSET Toks : Reload(c)
        \/ Wake \/ Apply1 \/ Listening(TRUE) \/ Listening(FALSE) \/ Clear
        \/ \E r \in Requests : Request(r)
Spec == Init /\ [][Next]_vars

Current == pc = "wait" /\ ~event => api = conf
Alive == pc # "dead"
Done == last.a.codes # {}
Authenticated == Done /\ last.r.auth # "A" => last.a.codes = {401} /\ s = last.old
ActiveKept == \A x \in s.jobs : s.repos[x] = last.old.repos[x]
Others == \A x \in Names : s.repos[x] # last.old.repos[x] => x = last.r.name /\ last.a.codes \cap Refusal = {}
OthersKept == \A x \in Names : \A k \in DOMAIN last.old.repos[x].h :
   last.old.repos[x].h[k].server # "" => \E j \in DOMAIN s.repos[x].h : s.repos[x].h[j].u = last.old.repos[x].h[k].u
LockedKept == \A x \in Names : s.repos[x].locked => s.repos[x].h = last.old.repos[x].h
=============================================================================
