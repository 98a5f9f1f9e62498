------------------------------- MODULE PendingMC -------------------------------
(***************************************************************************)
(* Requests, the daemon's rounds and the steps of a collection on dead     *)
(* repositories 1..N.  A client first removes a revision (its data, number *)
(* k, becomes garbage), then asks for a purge.  A collection claims the    *)
(* request, looks which data is garbage, removes it, takes the marker      *)
(* away, and puts it back if it was touched since the claim.               *)
(* It may fail at any step (MaxFail times).                                *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS N, MaxReq, MaxFail, Claims
R == 1..N
VARIABLES mark,    \* repository -> "no", "new", "claimed"
          taken,   \* repository -> "no", "new", "claimed": marker set aside by a running collection
          garbage, \* repository -> set of data to be collected
          asked,   \* repository -> set of data whose purge has been requested
          client, nreq, pc, todo, cur, known, fails, good
vars == <<mark, taken, garbage, asked, client, nreq, pc, todo, cur, known, fails, good>>
Init == /\ mark = [r \in R |-> "no"] /\ taken = [r \in R |-> "no"]
        /\ garbage = [r \in R |-> {}] /\ asked = [r \in R |-> {}]
        /\ client = [r \in R |-> 0] /\ nreq = 0 /\ pc = "sleep" /\ todo = {} /\ cur = 0 /\ known = {} /\ fails = 0
        /\ good = [r \in R |-> 0]
Remove(r) == /\ nreq < MaxReq /\ client[r] = 0
             /\ nreq' = nreq + 1 /\ client' = [client EXCEPT ![r] = nreq + 1]
             /\ garbage' = [garbage EXCEPT ![r] = @ \cup {nreq + 1}]
             /\ UNCHANGED <<mark, taken, asked, pc, todo, cur, known, fails, good>>
Ask(r) == /\ client[r] # 0
          /\ asked' = [asked EXCEPT ![r] = @ \cup {client[r]}] /\ client' = [client EXCEPT ![r] = 0]
          /\ mark' = [mark EXCEPT ![r] = "new"]
          /\ UNCHANGED <<taken, garbage, nreq, pc, todo, cur, known, fails, good>>
Wake == /\ pc = "sleep" /\ pc' = "pick" /\ todo' = R
        /\ UNCHANGED <<mark, taken, garbage, asked, client, nreq, cur, known, fails, good>>
Pick == /\ pc = "pick"
        /\ IF todo = {} THEN pc' = "sleep" /\ UNCHANGED <<todo, cur>>
           ELSE \E r \in todo : /\ todo' = todo \ {r}
                                /\ IF mark[r] # "no" THEN pc' = "claim" /\ cur' = r ELSE UNCHANGED <<pc, cur>>
        /\ UNCHANGED <<mark, taken, garbage, asked, client, nreq, known, fails, good>>
Claim == /\ pc = "claim" /\ pc' = "scan"
         /\ mark' = IF Claims /\ mark[cur] # "no" THEN [mark EXCEPT ![cur] = "claimed"] ELSE mark
         /\ UNCHANGED <<taken, garbage, asked, client, nreq, todo, cur, known, fails, good>>
Scan == /\ pc = "scan" /\ pc' = "purge" /\ known' = garbage[cur]
        /\ UNCHANGED <<mark, taken, garbage, asked, client, nreq, todo, cur, fails, good>>
Collect == /\ pc = "purge" /\ pc' = "take"
           /\ garbage' = [garbage EXCEPT ![cur] = @ \ known]
           /\ UNCHANGED <<mark, taken, asked, client, nreq, todo, cur, known, fails, good>>
Take == /\ pc = "take" /\ pc' = "look"
        /\ taken' = [taken EXCEPT ![cur] = mark[cur]] /\ mark' = [mark EXCEPT ![cur] = "no"]
        /\ UNCHANGED <<garbage, asked, client, nreq, todo, cur, known, fails, good>>
Look == /\ pc = "look" /\ pc' = "pick"
        /\ taken' = [taken EXCEPT ![cur] = "no"]
        /\ mark' = IF Claims /\ taken[cur] = "new" THEN [mark EXCEPT ![cur] = "new"] ELSE mark
        /\ good' = [good EXCEPT ![cur] = @ + 1]
        /\ UNCHANGED <<garbage, asked, client, nreq, todo, cur, known, fails>>
Fail == /\ pc \in {"claim", "scan", "purge", "take"} /\ fails < MaxFail
        /\ fails' = fails + 1 /\ pc' = "pick"
        /\ UNCHANGED <<mark, taken, garbage, asked, client, nreq, todo, cur, known, good>>
Gc == Wake \/ Pick \/ Claim \/ Scan \/ Collect \/ Take \/ Look
Next == Gc \/ Fail \/ \E r \in R : Remove(r) \/ Ask(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Gc) /\ \A r \in R : WF_vars(Ask(r))

\* every request is carried out in the end
Carried == \A r \in R : \A k \in 1..MaxReq : (k \in asked[r]) ~> (k \notin garbage[r])
\* and then no longer pending
Cleared == \A r \in R : []<>(mark[r] = "no" /\ taken[r] = "no")
\* at most one successful collection per request
Once == \A r \in R : good[r] <= Cardinality(asked[r])
\* garbage whose purge was requested is never forgotten
Kept == \A r \in R : (asked[r] \cap garbage[r] # {}) =>
           (mark[r] # "no" \/ taken[r] = "new" \/ (cur = r /\ asked[r] \cap garbage[r] \subseteq known /\ pc \in {"purge"}))
=============================================================================
