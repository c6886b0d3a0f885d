------------------------------ MODULE MessageGen ----------------------------
(* All streams of up to N pieces: status lines, header lines, empty lines, *)
(* bodies, put together freely.  What Parse makes of them is checked here  *)
(* and by the real parser.                                                 *)
EXTENDS Message, Json, TLC
CONSTANT N
StatusLines == <<
  <<82, 84, 83, 80, 47, 49, 46, 48, 32, 50, 48, 48, 32, 79, 75, 13, 10>>,
  <<82, 84, 83, 80, 47, 49, 46, 48, 32, 52, 48, 49, 32, 78, 111, 58, 32, 119, 97, 121, 13, 10>>,
  <<82, 84, 83, 80, 47, 49, 46, 48, 32, 50, 48, 48, 32, 13, 10>>,
  <<82, 84, 83, 80, 47, 50, 46, 48, 32, 50, 48, 48, 32, 79, 75, 13, 10>>,
  <<82, 84, 83, 80, 47, 49, 46, 48, 32, 50, 48, 32, 79, 75, 13, 10>>,
  <<82, 84, 83, 80, 47, 49, 46, 48, 32, 50, 97, 48, 32, 79, 75, 13, 10>>,
  <<82, 84, 83, 80, 47, 49, 46, 48, 50, 48, 48, 32, 79, 75, 13, 10>>,
  <<103, 97, 114, 98, 97, 103, 101, 13, 10>>>>
HeaderLines == <<
  <<67, 83, 101, 113, 58, 32, 51, 13, 10>>,
  <<99, 115, 101, 113, 58, 52, 52, 13, 10>>,
  <<67, 111, 110, 116, 101, 110, 116, 45, 76, 101, 110, 103, 116, 104, 58, 32, 51, 13, 10>>,
  <<67, 79, 78, 84, 69, 78, 84, 45, 76, 69, 78, 71, 84, 72, 32, 58, 48, 13, 10>>,
  <<88, 58, 32, 32, 97, 58, 98, 32, 9, 13, 10>>,
  <<32, 109, 111, 114, 101, 58, 32, 120, 13, 10>>,
  <<110, 111, 99, 111, 108, 111, 110, 13, 10>>,
  <<58, 32, 120, 13, 10>>,
  <<69, 109, 112, 116, 121, 58, 13, 10>>>>
Bodies == <<
  <<>>,
  <<36, 0, 10>>,
  <<82, 84, 83, 80, 47, 49, 46, 48, 32, 50, 48, 48, 32, 79, 75, 13, 10, 13, 10>>>>
EmptyLine == <<13, 10>>
VARIABLES b, n, phase
vars == <<b, n, phase>>
Init == b = <<>> /\ n = 0 /\ phase = "status"
Put(p, to) == b' = b \o p /\ n' = n + 1 /\ phase' = to
Next == /\ n < N
        /\ \/ phase = "status" /\ \E i \in DOMAIN StatusLines : Put(StatusLines[i], "head")
           \/ phase = "head" /\ \E i \in DOMAIN HeaderLines : Put(HeaderLines[i], "head")
           \/ phase = "head" /\ \E i \in DOMAIN Bodies : Put(EmptyLine \o Bodies[i], "status")
Spec == Init /\ [][Next]_vars
P == Parse(b)
Total == P.end \in {"clean", "cut", "error"}
\* what has been read once stays as it is when more arrives
Stable == [][LET p == Parse(b) q == Parse(b') IN Len(q.msgs) >= Len(p.msgs) /\ SubSeq(q.msgs, 1, Len(p.msgs)) = p.msgs /\ (p.end = "error" => q.end = "error")]_vars
\* messages read one after another are those of the rest of the stream
Composes == P.msgs # <<>> => \E i \in 1..Len(b) : LET q == Parse(SubSeq(b, i + 1, Len(b))) IN q.end = P.end /\ q.msgs = Tail(P.msgs)
Emit == (n = N \/ phase = "status") /\ n > 0 => PrintT("CASE@" \o ToJson([b |-> b, msgs |-> Len(P.msgs), end |-> P.end]))
=============================================================================
