---------------------------- MODULE HostileTrace ----------------------------
(* Recorded attacks: each line is one input, one series of well-formed     *)
(* inputs afterwards, or one session.                                      *)
EXTENDS Hostile, TraceBase
VARIABLE l
Why(t) == IF t.e = "feed" THEN (IF t.out \notin Ends THEN "ended badly" ELSE IF ~Fine(t) THEN "memory" ELSE "fine")
          ELSE IF t.e = "probe" THEN (IF Recovered(t.fresh, t.after) THEN "fine" ELSE "not as before")
          ELSE IF SessionFine(t) THEN "fine" ELSE "session"
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ \E w \in {Why(Trace[l])} : IF w = "fine" THEN TRUE ELSE Reject(l, w)
TSpec == l = 1 /\ [][Step]_l
=============================================================================
