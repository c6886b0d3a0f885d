----------------------------- MODULE AnnexBGen ------------------------------
(* Every byte stream of up to MaxUnits small units, with every choice of   *)
(* start code length and padding: the scanner finds exactly the units.     *)
EXTENDS AnnexB, TLC, Json
CONSTANTS Alphabet, MaxUnits, MaxUnit, MaxZeros, MaxTrail
VARIABLES us, zeros, trail
vars == <<us, zeros, trail>>
Strings == UNION {[1..n -> Alphabet] : n \in 1..MaxUnit}
Units == {u \in Strings : IsUnit(u)}
Init == us = <<>> /\ zeros = <<>> /\ trail = 0
Next == /\ Len(us) < MaxUnits
        /\ \E u \in Units, z \in 2..MaxZeros, t \in 0..MaxTrail :
             us' = Append(us, u) /\ zeros' = Append(zeros, z) /\ trail' = t
        /\ trail = 0
Spec == Init /\ [][Next]_vars
Buf == Assemble(us, zeros, trail)
Recovers == Scan(Buf) = us
Emit == us # <<>> => PrintT("CASE@" \o ToJson([buf |-> Buf, units |-> Split(Buf)]))
=============================================================================
