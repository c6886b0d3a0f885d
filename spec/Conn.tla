-------------------------------- MODULE Conn --------------------------------
(* C01.  Reading a connection: the stream b, the position p of the next    *)
(* octet to be read and one operation [op, n].  The outcome is             *)
(*   [out, p]   what the operation returns and where it leaves the stream  *)
(*   [fail]     the stream ends before the operation has what it needs     *)
EXTENDS Integers, Sequences
LF == 10
RECURSIVE LineEnd(_, _)
LineEnd(b, i) == IF i > Len(b) THEN 0 ELSE IF b[i] = LF THEN i ELSE LineEnd(b, i + 1)
Need(b, p, o) == CASE o.op \in {"peek", "bytes", "discard"} -> o.n
                   [] o.op = "byte" -> 1
                   [] o.op = "u16" -> 2
                   [] o.op = "line" -> LET e == LineEnd(b, p) IN IF e = 0 THEN Len(b) + 1 ELSE e - p + 1
Enough(b, p, o) == p + Need(b, p, o) - 1 <= Len(b)
\* the octets an operation returns (u16: most significant first; discard: those it skips)
Octets(b, p, o) == SubSeq(b, p, p + Need(b, p, o) - 1)
Step(b, p, o) == IF o.op = "peek" THEN p ELSE p + Need(b, p, o)
Out(b, p, o) == CASE o.op = "u16" -> b[p] * 256 + b[p + 1]
                  [] o.op = "byte" -> b[p]
                  [] o.op = "discard" -> o.n
                  [] OTHER -> Octets(b, p, o)
=============================================================================
