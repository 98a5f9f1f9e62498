--------------------------------- MODULE SyncMC ---------------------------------
(***************************************************************************)
(* One owner, one mirror of its revisions, tag edits on both sides, pulls  *)
(* and pushes whose requests or answers may get lost.                      *)
(*  Compare: the owner applies a change only to the tags it was based on   *)
(*  (the code).  Without it an edit of the owner gets lost.                *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Revs, Tags, MaxEdit, MaxLoss, Compare
VARIABLES own,   \* revision -> [there, tags]
          mir,   \* revision -> [there, tags, orig]
          req,   \* request under way, or none
          edits, loss, tried, \* revision -> tried in this push
          lostupdate, phase
vars == <<own, mir, req, edits, loss, tried, lostupdate, phase>>
none == [rev |-> "none"]
TS == SUBSET Tags
Init == /\ own \in [Revs -> [there : {TRUE}, tags : TS \ {{}}]]
        /\ mir = [r \in Revs |-> [there |-> FALSE, tags |-> {}, orig |-> {}]]
        /\ req = none /\ edits = 0 /\ loss = 0 /\ tried = [r \in Revs |-> {}] /\ lostupdate = FALSE /\ phase = "pull"
OwnerEdit(r) == /\ edits < MaxEdit /\ own[r].there
                /\ \E s \in TS : s # own[r].tags /\ own' = [own EXCEPT ![r] = [there |-> s # {}, tags |-> s]]
                /\ edits' = edits + 1
                /\ UNCHANGED <<mir, req, loss, tried, lostupdate, phase>>
MirrorEdit(r) == /\ edits < MaxEdit /\ mir[r].there /\ req = none
                 /\ \E s \in TS : s # mir[r].tags /\ mir' = [mir EXCEPT ![r].tags = s]
                 /\ edits' = edits + 1
                 /\ UNCHANGED <<own, req, loss, tried, lostupdate, phase>>
Pull == /\ phase = "pull" /\ req = none /\ phase' = "push"
        /\ \/ mir' = [r \in Revs |-> [there |-> own[r].there, tags |-> own[r].tags, orig |-> own[r].tags]] /\ UNCHANGED loss
           \/ loss < MaxLoss /\ loss' = loss + 1 /\ UNCHANGED mir
        /\ UNCHANGED <<own, req, edits, tried, lostupdate>>
IsPending(r) == mir[r].there /\ mir[r].tags # mir[r].orig
Start(r) == /\ phase = "push" /\ req = none /\ IsPending(r) /\ tried[r] = {}
            /\ req' = [rev |-> r, orig |-> mir[r].orig, tags |-> mir[r].tags, st |-> "sent"]
            /\ tried' = [tried EXCEPT ![r] = {"tried"}]
            /\ UNCHANGED <<own, mir, edits, loss, lostupdate, phase>>
Apply == /\ req # none /\ req.st = "sent"
         /\ LET r == req.rev
                fits == own[r].there /\ (~Compare \/ own[r].tags = req.orig)
            IN  /\ own' = IF fits THEN [own EXCEPT ![r] = [there |-> req.tags # {}, tags |-> req.tags]] ELSE own
                /\ lostupdate' = (lostupdate \/ (fits /\ own[r].tags # req.orig))
                /\ req' = [req EXCEPT !.st = IF fits THEN "yes" ELSE "no"]
         /\ UNCHANGED <<mir, edits, loss, tried, phase>>
Answer == /\ req # none /\ req.st \in {"yes", "no"} /\ req' = none
          /\ mir' = IF req.st = "no" THEN mir
                    ELSE IF req.tags = {} THEN [mir EXCEPT ![req.rev] = [there |-> FALSE, tags |-> {}, orig |-> {}]]
                    ELSE [mir EXCEPT ![req.rev].orig = req.tags]
          /\ UNCHANGED <<own, edits, loss, tried, lostupdate, phase>>
Lose == /\ req # none /\ loss < MaxLoss /\ loss' = loss + 1 /\ req' = none
        /\ UNCHANGED <<own, mir, edits, tried, lostupdate, phase>>
EndPush == /\ phase = "push" /\ req = none /\ \A r \in Revs : IsPending(r) => tried[r] # {}
           /\ phase' = "pull" /\ tried' = [r \in Revs |-> {}]
           /\ UNCHANGED <<own, mir, req, edits, loss, lostupdate>>
Next == Pull \/ Apply \/ Answer \/ Lose \/ EndPush \/ \E r \in Revs : OwnerEdit(r) \/ MirrorEdit(r) \/ Start(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Pull) /\ WF_vars(Apply) /\ WF_vars(Answer) /\ WF_vars(EndPush) /\ \A r \in Revs : WF_vars(Start(r))
\* An edit of the owner is never undone by a push that did not know of it
NoLostUpdate == ~lostupdate
\* Once edits and losses end, both sides agree for ever
Agree == \A r \in Revs : mir[r].there = own[r].there /\ (own[r].there => mir[r].tags = own[r].tags /\ mir[r].orig = own[r].tags)
Converge == <>[]Agree
\* Only a confirmed change loses its pending state (a pull takes over the owner's tags)
Confirmed == [][\A r \in Revs : (IsPending(r) /\ ~IsPending(r)' /\ phase' = phase /\ mir[r].tags = mir'[r].tags)
                   => (req # none /\ req.rev = r /\ req.st = "yes")]_vars
=============================================================================
