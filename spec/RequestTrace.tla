---------------------------- MODULE RequestTrace ----------------------------
EXTENDS Request, TraceBase
VARIABLE l
Init == l = 1
Judge(e) == \E f \in {Faults(e.b, e.authority, e.secrets)} : IF f = {} THEN TRUE ELSE Reject(l, f)
Next == l <= Len(Trace) /\ Judge(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
