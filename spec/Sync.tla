---------------------------------- MODULE Sync ----------------------------------
(***************************************************************************)
(* Synchronizing a job's metadata between servers.                         *)
(* A revision: [tags, orig, server, clean, rest]; rest stands for all that *)
(* no synchronization may change (time, statistics, trust).                *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

If(b, n) == IF b THEN {n} ELSE {}
Of(m, s) == {u \in DOMAIN m : m[u].server = s}
Restrict(m, S) == [u \in S |-> m[u]]

\* What a pull has to record for a revision of peer p
Mirrored(r, p) == [tags |-> r.tags, orig |-> r.tags, server |-> p, clean |-> TRUE, rest |-> r.rest]
Offered(revs) == {u \in DOMAIN revs : revs[u].server = "" /\ revs[u].clean}

(***************************************************************************)
(* m0, m1: the revisions here before and after.  peers: name ->            *)
(*  [out, revs]: what became of the requests to it                         *)
(*   "ok"   both were answered                                             *)
(*   "away" no connection, or one that broke                               *)
(*   "gone" answered not found or forbidden                                *)
(*   "err"  any other error                                                *)
(***************************************************************************)
Contested(m0, peers, p, u) ==
  \/ u \in DOMAIN m0 /\ m0[u].server # p
  \/ \E q \in DOMAIN peers \ {p} : peers[q].out # "away" /\ u \in Offered(peers[q].revs)
PullBad(m0, m1, peers) ==
  LET ok == {p \in DOMAIN peers : peers[p].out = "ok"}
      Kept(p) == Of(m0, p) = Of(m1, p) /\ \A u \in Of(m0, p) : m0[u] = m1[u]
  IN  If(Of(m0, "") # Of(m1, "") \/ \E u \in Of(m0, "") \cap Of(m1, "") : m0[u] # m1[u], "local-changed")
  \cup If(\E u \in DOMAIN m1 : m1[u].server # "" /\ m1[u].server \notin DOMAIN peers, "former-peer-kept")
  \cup If(\E p \in ok : \E u \in Offered(peers[p].revs) :
            u \notin Of(m1, p) /\ ~Contested(m0, peers, p, u), "not-recorded")
  \cup If(\E p \in ok : \E u \in Of(m1, p) : u \notin Offered(peers[p].revs), "too-many-recorded")
  \cup If(\E p \in ok : \E u \in Of(m1, p) \cap Offered(peers[p].revs) :
            m1[u] # Mirrored(peers[p].revs[u], p), "recorded-wrong")
  \cup If(\E p \in DOMAIN peers : peers[p].out = "away" /\ ~Kept(p), "unreachable-changed")
  \cup If(\E p \in DOMAIN peers : peers[p].out = "gone" /\ Of(m1, p) # {}, "denied-kept")
  \cup If(\E p \in DOMAIN peers : peers[p].out = "err" /\ Of(m1, p) # {} /\ ~Kept(p), "error-changed")

(***************************************************************************)
(* m0, m1 as above; own: owner -> [revs0, revs1, active, known, locked,    *)
(*  marker0, marker1]: its repository before (after the owner's own edits) *)
(*  and after; puts: seq of [server, rev, fate] requests seen on the way,  *)
(*  fate "ok" (delivered and answered), "lost" (not delivered), "unanswered"*)
(*  (delivered, the answer lost), "refused" (answered by something else);  *)
(*  purges likewise: seq of [server, fate].                                *)
(***************************************************************************)
Pending(m, peers) == {u \in DOMAIN m : m[u].server \in peers /\ m[u].clean /\ m[u].tags # m[u].orig}
Accepts(o, r, u) == /\ o.known /\ ~o.active /\ ~o.locked
                    /\ u \in DOMAIN o.revs0 /\ o.revs0[u].tags = r.orig
Delivered(fate) == fate \in {"ok", "unanswered"}
PushBad(m0, m1, own, puts, purges) ==
  LET P == Pending(m0, DOMAIN own)
      Puts(u) == {k \in DOMAIN puts : puts[k].rev = u}
      Fate(u) == puts[CHOOSE k \in Puts(u) : TRUE].fate
      Sent == {u \in P : Cardinality(Puts(u)) = 1}
      Owner(u) == own[m0[u].server]
      Took(u) == Delivered(Fate(u)) /\ Accepts(Owner(u), m0[u], u)
      Done(u) == Took(u) /\ Fate(u) = "ok"
      Wish(o, s) == [v \in {w \in DOMAIN o.revs0 : ~(w \in Sent /\ m0[w].server = s /\ Took(w) /\ m0[w].tags = {})} |->
                       IF v \in Sent /\ m0[v].server = s /\ Took(v) THEN [o.revs0[v] EXCEPT !.tags = m0[v].tags] ELSE o.revs0[v]]
      Removed(s) == {u \in Sent : m0[u].server = s /\ Done(u) /\ m0[u].tags = {}}
      Asked(s) == \E k \in DOMAIN purges : purges[k].server = s /\ Delivered(purges[k].fate)
  IN  \* requests
      If(\E u \in P : Cardinality(Puts(u)) # 1, "not-sent-once")
  \cup If(\E k \in DOMAIN puts : puts[k].rev \notin P \/ m0[puts[k].rev].server # puts[k].server, "sent-wrongly")
  \cup If(\E s \in DOMAIN own : Removed(s) # {} /\ \A k \in DOMAIN purges : purges[k].server # s, "purge-not-asked")
  \cup If(\E k \in DOMAIN purges : Removed(purges[k].server) = {}, "purge-asked")
      \* owners
  \cup If(\E s \in DOMAIN own : own[s].revs1 # Wish(own[s], s), "owner-wrong")
  \cup If(\E s \in DOMAIN own : own[s].known /\ ~own[s].active
            /\ own[s].marker1 # (own[s].marker0 \/ Asked(s)), "marker-wrong")
      \* here
  \cup If(\E u \in DOMAIN m0 \ Sent : u \notin DOMAIN m1 \/ m1[u] # m0[u], "others-changed")
  \cup If(DOMAIN m1 \ DOMAIN m0 # {}, "appeared")
  \cup If(\E u \in Sent : ~Done(u) /\ (u \notin DOMAIN m1 \/ m1[u] # m0[u]), "failed-not-pending")
  \cup If(\E u \in Sent : Done(u) /\ m0[u].tags = {} /\ u \in DOMAIN m1, "removed-kept")
  \cup If(\E u \in Sent : Done(u) /\ m0[u].tags # {} /\
            (u \notin DOMAIN m1 \/ m1[u] # [m0[u] EXCEPT !.orig = m0[u].tags]), "still-pending")
=============================================================================
