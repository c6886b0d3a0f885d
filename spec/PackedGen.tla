------------------------------ MODULE PackedGen -----------------------------
(* Requests over a palette, filled in part by part.                        *)
EXTENDS Packed, Json, TLC
CONSTANT N      \* headers
PLAY == <<80, 76, 65, 89>>
Uris == {<<114, 116, 115, 112, 58, 47, 47, 104, 58, 53, 53, 52, 47, 97>>, <<42>>}
Names == {<<88, 45, 65>>, <<65, 99, 99, 101, 112, 116>>, <<82, 97, 110, 103, 101>>}
Vals == {<<>>, <<49>>, <<110, 112, 116, 61, 48, 58, 49, 45>>, <<97, 32, 44, 32, 98>>}
VARIABLES r, step
vars == <<r, step>>
Init == /\ step = "hdrs"
        /\ \E v \in {OPTIONS, SETUP, PLAY}, u \in Uris, c \in {0, 7, 10, 2147483647} :
             r = [verb |-> v, uri |-> u, cseq |-> c, session |-> <<>>, auth |-> <<>>, hdrs |-> <<>>]
AddHeader == /\ step = "hdrs" /\ Len(r.hdrs) < N
             /\ \E n \in Names, v \in Vals : (\A i \in DOMAIN r.hdrs : r.hdrs[i].n # n) /\ r' = [r EXCEPT !.hdrs = Append(@, [n |-> n, v |-> v])]
             /\ UNCHANGED step
Close == /\ step = "hdrs" /\ step' = "done"
         /\ \E s \in {<<>>, <<65, 49>>}, a \in {<<>>, <<66, 97, 115, 105, 99, 32, 120>>} : r' = [r EXCEPT !.session = s, !.auth = a]
Next == AddHeader \/ Close
Spec == Init /\ [][Next]_vars
\* the message says what the request holds, and one that says something else is told apart
Sound == Fault(r, Message(r)) = ""
Tells == \A q \in {[r EXCEPT !.cseq = IF @ = 0 THEN 1 ELSE @ - 1], [r EXCEPT !.uri = Append(@, 47)], [r EXCEPT !.hdrs = Append(@, [n |-> <<90>>, v |-> <<>>])]} : Fault(q, Message(r)) # ""
Emit == step = "done" => PrintT("CASE@" \o ToJson(r))
=============================================================================
