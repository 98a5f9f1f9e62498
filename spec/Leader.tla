---------------------------------- MODULE Leader ----------------------------------
(***************************************************************************)
(* Servers sharing a job: who makes the backup?                            *)
(* An answer of a peer: [kind: "job", revs, last, next, running] or        *)
(* [kind: "none"] (no such job) or [kind: "err"].  Times in seconds;       *)
(* None: there is no such time.                                            *)
(* Feed folds what is observed into a state m; complaints are in m.bad.    *)
(* Observations: plan [next], run, down/up [peer], ask [peer, ans, own],   *)
(* own [own] (we have more or fewer),                                      *)
(* backup, pull [peer], cb [told, disk], probe [shown, truth], end.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

None == -999999999
Near == 300
Poll == 300
Slack == 60
If(b, n) == IF b THEN {n} ELSE {}
SetOf(q) == {q[j] : j \in DOMAIN q}

(* the first peer which has strictly more backups than we have, and than those before it *)
RECURSIVE Best(_, _, _, _)
Best(ps, ans, n, who) ==
  IF ps = <<>> THEN who
  ELSE LET p == Head(ps) IN
       IF p \in DOMAIN ans /\ ans[p].kind = "job" /\ ans[p].revs > n THEN Best(Tail(ps), ans, ans[p].revs, p)
       ELSE Best(Tail(ps), ans, n, who)
LeaderOf(ps, ans, own) == Best(ps, ans, own, "")
(* what to do, given what the leader says: the allowed verdicts *)
Verdicts(a, due) ==
  IF a.kind # "job" THEN {"self"}
  ELSE LET ago == due - a.last
           ahead == a.next - due
           rest(x) == IF ~a.running THEN {"self"}
                      ELSE IF a.next = None \/ ahead < Near - 1 THEN {"wait"}
                      ELSE IF ahead > Near + 1 THEN {"self"} ELSE {"wait", "self"}
       IN  IF a.last = None \/ ago > Near + 1 THEN rest(0)
           ELSE IF ago < Near - 1 THEN {"skip"} ELSE {"skip"} \cup rest(0)
OnBoundary(a, due) == a.kind = "job" /\ a.last # None /\ due - a.last \in Near - 1 .. Near + 1

Start == [ph |-> "new", due |-> 0, ans |-> <<>>, cur |-> [kind |-> "none"], own |-> {}, led |-> "", t |-> 0, req |-> FALSE, reqt |-> 0, early |-> FALSE,
          down |-> {}, skips |-> 0, pulled |-> {}, bad |-> {}]
(* m.own: how many backups we had while asking; who may be the leader *)
Decide(c, m) == {LeaderOf(c.peers, m.ans, o) : o \in m.own}
(* all the verdicts allowed in this state *)
Now(c, m) == CASE m.ph = "ask" -> UNION {IF l = "" THEN {"self"} ELSE Verdicts(m.ans[l], m.due) : l \in Decide(c, m)}
               [] m.ph = "poll" -> Verdicts(m.cur, m.due)
               [] OTHER -> {}
Missing(c, m) == {p \in SetOf(c.peers) : p \notin m.down /\ p \notin DOMAIN m.ans}

(* planned and due at once, unseen *)
Sudden(m, e) == IF m.ph \in {"new", "skip", "run"} THEN [m EXCEPT !.ph = "wait", !.due = e.t] ELSE m
OnAsk(c, m1, e) ==
  LET m == Sudden(m1, e) IN
  IF m.ph = "wait"
  THEN [m EXCEPT !.ph = "ask", !.ans = (e.peer :> e.ans), !.own = {e.own}, !.t = e.t, !.led = "",
                 !.early = m.req /\ m.reqt < m.due - 1,
                 !.bad = If(e.t < m.due /\ ~m.req, "asked-early") \cup If(e.t > m.due + Slack /\ ~c.busy, "asked-late")]
  ELSE IF m.ph = "ask" /\ e.peer \notin DOMAIN m.ans
  THEN [m EXCEPT !.ans = (e.peer :> e.ans) @@ @]
  \* the connection was lost and it was tried again
  ELSE IF m.ph = "ask" /\ e.t = m.t /\ m.ans[e.peer].kind = "err"
  THEN [m EXCEPT !.ans = (e.peer :> e.ans) @@ @]
  ELSE IF m.ph = "poll" /\ e.t = m.t /\ e.peer = m.led /\ m.cur.kind = "err"
  THEN [m EXCEPT !.cur = e.ans]
  ELSE IF m.ph \in {"ask", "poll"}
  THEN LET L == IF m.ph = "ask" THEN Decide(c, m) ELSE {m.led} IN
       [m EXCEPT !.ph = "poll", !.led = e.peer, !.cur = e.ans, !.t = e.t,
                 !.bad = If("wait" \notin Now(c, m), "waits-without-reason")
                         \cup If(e.peer \notin L, "waits-for-the-wrong-peer")
                         \cup If(e.t - m.t > Poll + 120, "does-not-look")
                         \cup If(m.req, "request-ignored")]
  ELSE [m EXCEPT !.bad = {"asked-out-of-turn"}]
OnBackup(c, m0, e) ==
  LET m == IF m0.ph \in {"new", "skip"} /\ m0.req THEN [m0 EXCEPT !.ph = "wait", !.due = e.t] ELSE m0
      L == IF m.ph = "ask" THEN Decide(c, m) ELSE {m.led}
      \* it could not be reached any more
      lost == L \cap m.down # {} /\ e.t >= m.t + Poll IN
  [m EXCEPT !.ph = "run", !.req = FALSE, !.t = e.t,
     !.bad = IF m.ph = "wait"
             THEN If(~m.req /\ Missing(c, [m EXCEPT !.ans = <<>>]) # {}, "did-not-ask")
             ELSE IF m.ph \in {"ask", "poll"}
             THEN If(~m.req /\ ~lost /\ "self" \notin Now(c, m), IF Now(c, m) = {"skip"} THEN "needless-backup" ELSE "did-not-wait")
                  \cup If(m.ph = "ask" /\ ~m.req /\ Missing(c, m) # {}, "did-not-ask")
                  \cup If(e.t > (IF m.req THEN m.reqt ELSE m.t) + 120 /\ ~c.busy /\ m.cur.kind # "err" /\ "wait" \notin Now(c, m), "dawdled")
             ELSE IF m.ph = "skip" THEN {"skipped-and-backed-up"} ELSE {}]
(* a pull without asking *)
OnPull(c, m, e) ==
  IF m.ph \in {"run", "skip"} THEN [m EXCEPT !.pulled = @ \cup {e.peer}]
  ELSE [m EXCEPT !.ph = "skip", !.skips = @ + 1, !.t = e.t, !.pulled = {e.peer},
          !.bad = IF m.ph \notin {"ask", "poll"} THEN {"skipped-without-asking"}
                  ELSE If("skip" \notin Now(c, m), "backup-skipped")
                       \cup If(m.early, "request-ignored")]
Feed(c, m0, e) ==
  LET m == [m0 EXCEPT !.bad = {}] IN
  CASE e.k = "start" -> Start
    [] e.k = "plan" -> [m EXCEPT !.ph = "wait", !.due = e.next, !.ans = <<>>, !.led = "", !.t = e.t, !.pulled = {}, !.cur = [kind |-> "none"], !.early = FALSE,
                          !.bad = If(m.ph \in {"ask", "poll"} , "neither-skipped-nor-backed-up")
                                  \cup If(m.ph = "skip" /\ {p \in SetOf(c.peers) : p \notin m.down /\ p \notin m.pulled} # {}, "not-synchronized")]
    [] e.k = "run" -> [m EXCEPT !.req = TRUE, !.reqt = e.t]
    [] e.k = "down" -> [m EXCEPT !.down = @ \cup {e.peer}]
    [] e.k = "up" -> [m EXCEPT !.down = @ \ {e.peer}, !.ans = IF m.ph = "ask" THEN @ @@ (e.peer :> [kind |-> "err"]) ELSE @,
                       !.pulled = @ \cup {e.peer}]
    [] e.k = "own" -> [m EXCEPT !.own = @ \cup {e.own}]
    [] e.k = "ask" -> OnAsk(c, m, e)
    [] e.k = "backup" -> OnBackup(c, m, e)
    [] e.k = "pull" -> OnPull(c, m, e)
    [] e.k = "cb" -> [m EXCEPT !.bad = If(m.ph = "skip" /\ e.told # e.disk, "wrong-history-reported")]
    [] e.k = "probe" -> [m EXCEPT !.bad = If(e.n # 1, "status-of-other-jobs")
                              \cup If(e.n = 1 /\ (e.shown.revs # e.truth.revs \/ e.shown.last # e.truth.last \/ ~e.shown.running
                                                  \/ e.shown.next \notin (IF m.ph = "wait" THEN {m.due} ELSE {None})
                                                                          \cup (IF m.ph = "wait" /\ (m.due <= e.t \/ m.req) THEN {None} ELSE {})), "wrong-status")]
    [] e.k = "end" -> [m EXCEPT !.bad = If(m.ph = "wait" /\ m.due + Slack < e.t /\ ~c.busy, "run-missed")
                              \cup If(m.ph \in {"ask", "poll"} /\ e.t - m.t > Poll + 120, "does-not-look")]
    [] e.k = "runaway" -> [m EXCEPT !.bad = {"runs-without-end"}]
    [] OTHER -> m
=============================================================================
