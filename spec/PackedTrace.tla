----------------------------- MODULE PackedTrace ----------------------------
(* Recorded packings: request r, packed twice as b and again.              *)
EXTENDS Packed, TraceBase
VARIABLE l
Judge(e) == \E f \in {Fault(e.r, e.b)} : \E g \in {Fault(e.r, e.again)} :
   IF f # "" THEN Reject(l, f) ELSE IF g # "" THEN Reject(l, "again") ELSE TRUE
Next == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1
Spec == l = 1 /\ [][Next]_l
=============================================================================
