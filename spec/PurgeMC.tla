-------------------------------- MODULE PurgeMC --------------------------------
(***************************************************************************)
(* The algorithm: round after round, candidate after candidate, a breadth  *)
(* first look at every entry, while others change the tree and a look may  *)
(* fail (which ends the round).  Rounds are MaxErr times allowed to fail.  *)
(***************************************************************************)
EXTENDS Purge
CONSTANTS MaxErr, MaxTouch
N == 1..5
\* 1, 2: candidates; 3 in 1; 4 in 3; 5 a link in 2
Parent == <<0, 0, 1, 3, 2>>
KindsOf == {<<"dir", "dir", "dir", "file", "link">>, <<"dir", "dir", "dir", "dir", "link">>,
            <<"dir", "link", "link", "file", "file">>, <<"dir", "file", "file", "link", "file">>}
VARIABLES T, pc, cand, todo, seen, err, touch, start, deleted, round
vars == <<T, pc, cand, todo, seen, err, touch, start, deleted, round>>
Init == /\ \E ks \in KindsOf, rec \in [N -> BOOLEAN] :
             \* entries of something that is no directory do not exist
             LET ok == {n \in N : Parent[n] = 0 \/ (ks[Parent[n]] = "dir" /\ (Parent[Parent[n]] = 0 \/ ks[Parent[Parent[n]]] = "dir"))} IN
             T = [n \in ok |-> [parent |-> Parent[n], kind |-> ks[n], recent |-> rec[n]]]
        /\ pc = "sleep" /\ cand = {} /\ todo = <<>> /\ seen = 0 /\ err = 0 /\ touch = 0
        /\ start = T /\ deleted = {} /\ round = 0
Tops == {n \in DOMAIN T : T[n].parent = 0}
Wake == /\ pc = "sleep" /\ round < MaxErr + 2
        /\ pc' = "pick" /\ cand' = Tops /\ round' = round + 1
        /\ UNCHANGED <<T, todo, seen, err, touch, start, deleted>>
Pick == /\ pc = "pick"
        /\ IF cand = {} THEN pc' = "sleep" /\ UNCHANGED <<cand, todo, seen, start>>
           ELSE \E c \in cand :
                  /\ cand' = cand \ {c}
                  /\ IF c \in DOMAIN T /\ T[c].kind = "dir"
                     THEN pc' = "look" /\ todo' = <<c>> /\ seen' = c /\ start' = T
                     ELSE UNCHANGED <<pc, todo, seen, start>>
        /\ UNCHANGED <<T, err, touch, deleted, round>>
Kids(n) == {m \in DOMAIN T : T[m].parent = n}
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Ordered(S \ {x})
\* one entry is looked at; it may have vanished (which is an error)
Look == /\ pc = "look" /\ todo # <<>>
        /\ LET n == Head(todo) IN
           IF n \notin DOMAIN T THEN pc' = "sleep" /\ todo' = <<>>
           ELSE IF T[n].recent THEN pc' = "pick" /\ todo' = <<>>
           ELSE /\ pc' = "look"
                /\ todo' = Tail(todo) \o (IF T[n].kind = "dir" THEN Ordered(Kids(n)) ELSE <<>>)
        /\ UNCHANGED <<T, cand, seen, err, touch, start, deleted, round>>
Delete == /\ pc = "look" /\ todo = <<>>
          /\ deleted' = deleted \cup {seen}
          /\ T' = [n \in DOMAIN T \ Sub(T, seen) |-> T[n]] /\ pc' = "pick"
          /\ UNCHANGED <<cand, todo, seen, err, touch, start, round>>
Fail == /\ pc \in {"pick", "look"} /\ err < MaxErr
        /\ err' = err + 1 /\ pc' = "sleep" /\ todo' = <<>>
        /\ UNCHANGED <<T, cand, seen, touch, start, deleted, round>>
Touch == /\ touch < MaxTouch /\ touch' = touch + 1
         /\ \E n \in DOMAIN T : T' = [T EXCEPT ![n].recent = TRUE]
         /\ UNCHANGED <<pc, cand, todo, seen, err, start, deleted, round>>
Next == Wake \/ Pick \/ Look \/ Delete \/ Fail \/ Touch
Spec == Init /\ [][Next]_vars /\ WF_vars(Wake \/ Pick \/ Look \/ Delete)

\* nothing is deleted that had recent changes when its inspection began
Safe == [][\A n \in DOMAIN T \ DOMAIN T' : Up(T, n) \in Old(start)]_vars
NoLinks == \A n \in deleted : n \in {1, 2}
Links == [][\A n \in DOMAIN T \ DOMAIN T' : T[Up(T, n)].kind = "dir"]_vars
\* old directories that stay untouched disappear in the end, whatever failed meanwhile
Eventually == \A n \in {1, 2} : [](n \in DOMAIN T /\ n \in Old(T) => <>(n \notin DOMAIN T \/ n \notin Old(T)))
=============================================================================
