------------------------------ MODULE CliTrace ------------------------------
(* Recorded runs of the command.                                           *)
EXTENDS Cli, TraceBase
VARIABLES l, o
E == Trace[l]
OK == CASE E.e = "req" -> RequestOK(o, E.v, E.t)
        [] E.e = "exit" -> ExitOK(o, E.code, E.t)
        [] E.e = "stalled" -> FALSE
        [] OTHER -> TRUE
Init == l = 1 /\ o = Begin
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ o' = CASE E.e = "begin" -> Begin
                  [] E.e = "req" -> Requested(o, E.v, E.t)
                  [] E.e = "ans" -> Answered(o, E.v, E.ok, E.n, E.t)
                  [] E.e = "close" -> IF o.st = "done" THEN o ELSE Closed(o, E.t)
                  [] E.e = "exit" -> Exited(o, E.t)
                  [] OTHER -> o
        /\ IF OK THEN TRUE ELSE Reject(l, E.e)
Spec == Init /\ [][Next]_<<l, o>>
=============================================================================
