------------------------------- MODULE EpbGen -------------------------------
(* Every byte string up to MaxLen over a few byte values: encapsulation is *)
(* safe and reversible, removal deletes nothing but emulation prevention.  *)
EXTENDS AnnexB, TLC, Json
CONSTANTS Alphabet, MaxLen
VARIABLE b
Init == b = <<>>
Next == Len(b) < MaxLen /\ \E x \in Alphabet : b' = Append(b, x)
Spec == Init /\ [][Next]_b
EscapeOK == IsEncapsulation(Escape(b), b)
IdentityOnPlain == (\A i \in 1..(Len(b) - 2) : ~(b[i] = 0 /\ b[i + 1] = 0 /\ b[i + 2] = 3)) => Unescape(b) = b
Shrinks == Len(Unescape(b)) = Len(b) - Len(SelectSeq([i \in 1..Len(b) |-> i],
   LAMBDA i : i > 2 /\ b[i] = 3 /\ b[i - 1] = 0 /\ b[i - 2] = 0))
FastOK == Unescape(b) = Unescape0(b)
Emit == PrintT("CASE@" \o ToJson([b |-> b, u |-> Unescape(b)]))
=============================================================================
