-------------------------------- MODULE DiffMC --------------------------------
(***************************************************************************)
(* Every way to describe the step from an old to a new image as a stream   *)
(* (pieces sent in any order, split or joined, also unchanged ones, zeros  *)
(* as data or as ranges), possibly broken afterwards, read token by token. *)
(***************************************************************************)
EXTENDS Diff, Json

CONSTANTS MinLen, MaxLen, Vals, MaxRecs, Emit, MayBreak
VARIABLES old, new, st, cur, phase, rd, pos, broken
vars == <<old, new, st, cur, phase, rd, pos, broken>>

Init == /\ old = <<>> /\ new = <<>>
        /\ st = <<>> /\ cur = <<>> /\ phase = "old" /\ pos = 0 /\ broken = "no"
        /\ rd = [ph |-> "header", img |-> <<>>]
\* the two images, piece by piece
Old == /\ phase = "old"
       /\ \/ /\ Len(old) < MaxLen /\ \E x \in Vals : old' = Append(old, x)
             /\ rd' = [rd EXCEPT !.img = old'] /\ UNCHANGED phase
          \/ Len(old) >= MinLen /\ phase' = "new" /\ UNCHANGED <<old, rd>>
       /\ UNCHANGED <<new, st, cur, pos, broken>>
New == /\ phase = "new"
       /\ \/ /\ Len(new) < MaxLen /\ \E x \in Vals \cup (IF Len(new) < Len(old) THEN {old[Len(new) + 1]} ELSE {}) :
                  new' = Append(new, x)
             /\ UNCHANGED phase
          \/ Len(new) >= MinLen /\ phase' = "meta" /\ UNCHANGED new
       /\ UNCHANGED <<old, st, cur, pos, broken, rd>>
Meta == /\ phase = "meta"
        /\ \E perm \in {<<"f", "t", "s">>, <<"t", "f", "s">>, <<"s", "f", "t">>} :
             st' = <<[r |-> "hdr"]>> \o
                   [k \in 1..3 |-> CASE perm[k] = "f" -> [r |-> "f", name |-> "A"]
                                     [] perm[k] = "t" -> [r |-> "t", name |-> "B"]
                                     [] OTHER -> [r |-> "s", n |-> Len(new)]]
        /\ cur' = Resize(old, Len(new)) /\ phase' = "data"
        /\ UNCHANGED <<old, new, rd, pos, broken>>
Diffs == {k \in DOMAIN new : cur[k] # new[k]}
Data == /\ phase = "data" /\ Len(st) < 4 + MaxRecs
        /\ \E a \in 0..Len(new) : \E b \in a..Len(new) :
             /\ Len(st) = 3 + MaxRecs => Diffs \subseteq (a + 1)..b
             /\ \/ /\ st' = Append(st, [r |-> "w", a |-> a, b |-> b, v |-> SubSeq(new, a + 1, b)])
                \/ /\ b > a /\ \A k \in (a + 1)..b : new[k] = 0
                   /\ st' = Append(st, [r |-> "z", a |-> a, b |-> b])
             /\ cur' = Put(cur, a, b, SubSeq(new, a + 1, b))
        /\ UNCHANGED <<old, new, phase, rd, pos, broken>>
End == /\ phase = "data" /\ Diffs = {}
       /\ st' = Append(st, [r |-> "e"]) /\ phase' = "sent"
       /\ UNCHANGED <<old, new, cur, rd, pos, broken>>
Break == /\ MayBreak /\ phase = "sent" /\ broken = "no" /\ pos = 0
         /\ \/ /\ broken' = "cut" /\ \E k \in 0..(Len(st) - 1) : st' = SubSeq(st, 1, k)
            \/ /\ broken' = "bad" /\ \E k \in 1..Len(st) : st' = [st EXCEPT ![k] = [r |-> "bad"]]
            \/ /\ broken' = "name" /\ \E k \in 1..Len(st) : st[k].r \in {"f", "t"} /\ st' = [st EXCEPT ![k].name = "C"]
            \/ /\ broken' = "late" /\ \E k \in {j \in 2..Len(st) : st[j].r \in {"w", "z"}} : \E m \in {x \in 1..(k - 1) : st[x].r \in {"f", "t", "s"}} :
                    st' = SubSeq(st, 1, k) \o <<st[m]>> \o SubSeq(st, k + 1, Len(st))
         /\ UNCHANGED <<old, new, cur, phase, rd, pos>>
Read == /\ phase = "sent" /\ pos < Len(st)
        /\ pos' = pos + 1 /\ rd' = ReadTok(rd, st[pos + 1], "A", "B")
        /\ UNCHANGED <<old, new, st, cur, phase, broken>>
Out == /\ Emit /\ phase = "sent" /\ pos = Len(st)
       /\ PrintT("@@" \o ToJson([old |-> old, new |-> new, st |-> st, broken |-> broken]))
       /\ phase' = "out" /\ UNCHANGED <<old, new, st, cur, rd, pos, broken>>
Next == Old \/ New \/ Meta \/ Data \/ End \/ Break \/ Read \/ Out
Spec == Init /\ [][Next]_vars

Finished == phase = "sent" /\ pos = Len(st)
Exact == Finished /\ rd.ph = "end" => broken = "no" /\ rd.img = new
Accepts == Finished /\ broken = "no" => rd.ph = "end"
Oracle == Finished => LET w == Integrate(old, st, "A", "B") IN
                      w.ok = (rd.ph = "end") /\ (w.ok => w.img = rd.img)
=============================================================================
