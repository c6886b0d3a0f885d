------------------------------- MODULE ConnGen ------------------------------
(* All short streams, arriving in up to Cuts+1 pieces, and all sequences of*)
(* reads on them.  A read waits until what it needs has arrived or the     *)
(* stream is closed.                                                       *)
EXTENDS Conn, Json, TLC
CONSTANTS MaxLen, MaxOps
VARIABLES b, arrived, closed, p, ops, got, failed
vars == <<b, arrived, closed, p, ops, got, failed>>
OpSet == {[op |-> "peek", n |-> n] : n \in {1, 3}} \cup {[op |-> "bytes", n |-> n] : n \in {0, 1, 3}} \cup {[op |-> "discard", n |-> n] : n \in {1, 2}}
         \cup {[op |-> x, n |-> 0] : x \in {"byte", "u16", "line"}}
Streams == UNION {[1..k -> {LF, 65}] : k \in 0..MaxLen}
Init == b \in Streams /\ arrived = 0 /\ closed = FALSE /\ p = 1 /\ ops = <<>> /\ got = <<>> /\ failed = FALSE
Arrive == /\ ~closed
          /\ IF arrived < Len(b) THEN \E k \in {1, Len(b) - arrived} : arrived' = arrived + k /\ closed' = FALSE
             ELSE closed' = TRUE /\ UNCHANGED arrived
          /\ UNCHANGED <<b, p, ops, got, failed>>
Avail == SubSeq(b, 1, arrived)
Read == /\ ~failed /\ Len(ops) < MaxOps
        /\ \E o \in OpSet :
             /\ ops' = Append(ops, o)
             /\ IF Enough(Avail, p, o)
                THEN p' = Step(Avail, p, o) /\ got' = (IF o.op = "peek" THEN got ELSE got \o Octets(Avail, p, o)) /\ UNCHANGED failed
                ELSE closed /\ failed' = TRUE /\ UNCHANGED <<p, got>>
        /\ UNCHANGED <<b, arrived, closed>>
Next == Arrive \/ Read
Spec == Init /\ [][Next]_vars
\* what was consumed is the beginning of the stream: nothing lost, repeated or made up
Prefix == got = SubSeq(b, 1, p - 1)
\* the pieces in which the stream arrives make no difference
Blind == [][\A o \in OpSet : ops' = Append(ops, o) /\ ~failed' => (Enough(b, p, o) /\ p' = Step(b, p, o))]_vars
Emit == closed /\ (failed \/ Len(ops) = MaxOps) => PrintT("CASE@" \o ToJson([b |-> b, ops |-> ops]))
=============================================================================
