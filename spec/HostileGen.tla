----------------------------- MODULE HostileGen -----------------------------
(* All series of up to Max edits of a small input, and the parser's machine *)
(* driven with them.                                                        *)
EXTENDS Hostile, Integers, TLC, Json
CONSTANTS Max, Small
Vals == IF Small THEN {0, 255} ELSE {0, 1, 127, 128, 255, 10, 44, 57, 61}
Runs == IF Small THEN {1, 300} ELSE {1, 3, 300}
Base == <<1, 2, 3, 4, 5, 6, 7, 8>>
VARIABLES b, edits, last, pending
vars == <<b, edits, last, pending>>
Init == b = Base /\ edits = <<>> /\ last = "none" /\ pending = TRUE
Damage == /\ pending /\ Len(edits) < Max
          /\ \E e \in Edits(Vals, Runs) : b' = Apply(b, e) /\ edits' = Append(edits, e)
          /\ UNCHANGED <<last, pending>>
Take == /\ pending /\ edits # <<>>
        /\ pending' = FALSE /\ last' \in Ends
        /\ PrintT("CASE@" \o ToJson([edits |-> edits, b |-> b]))
        /\ UNCHANGED <<b, edits>>
Next == Damage \/ Take
Spec == Init /\ [][Next]_vars /\ WF_vars(Take)
\* Damage grows an input by a bounded amount only, so cost stays bounded.
Bounded == Len(b) <= 8 * 2 ^ Max + 300 * (2 ^ Max)
Octets == \A i \in 1..Len(b) : b[i] \in 0..255
Ended == <>(edits = <<>> \/ last # "none")
=============================================================================
