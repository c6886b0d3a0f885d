------------------------------ MODULE SdpTrace ------------------------------
EXTENDS Sdp, TraceBase
VARIABLE l
E == Trace[l]
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ Entries(E.lines) = E.got \/ Reject(l, "entries")
TSpec == l = 1 /\ [][Step]_l
=============================================================================
