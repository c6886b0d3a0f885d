--------------------------- MODULE KeepAliveTrace ---------------------------
(* Times at which the server read keep-alives and the user read reports.   *)
EXTENDS KeepAlive, TraceBase
VARIABLES l, o
vars == <<l, o>>
E == Trace[l]
OK(x) == CASE E.e = "begin" -> TRUE
           [] E.e = "stage" -> StageOK(x, E.s, E.t)
           [] E.e = "beat" -> BeatOK(x, E.t)
           [] E.e = "end" -> EndOK(x, E.t)
After(x) == CASE E.e = "begin" -> Begin(E.on)
              [] E.e = "stage" -> Staged(x, E.s, E.t)
              [] E.e = "beat" -> Beat(x, E.t)
              [] OTHER -> x
Init == l = 1 /\ o = Begin(TRUE)
Next == /\ l <= Len(Trace) /\ l' = l + 1 /\ o' = After(o)
        /\ IF OK(o) THEN TRUE ELSE Reject(l, E.e)
Spec == Init /\ [][Next]_vars
=============================================================================
