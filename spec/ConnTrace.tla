------------------------------ MODULE ConnTrace -----------------------------
(* C01.  Each line: stream b, operations ops and their outcomes res:       *)
(* [ok, v] in order, up to the first failure.                              *)
EXTENDS Conn, TraceBase
VARIABLE l
RECURSIVE Walk(_, _, _, _)
Walk(b, p, ops, res) ==
  IF ops = <<>> THEN (IF res = <<>> THEN "" ELSE "extra")
  ELSE LET o == Head(ops) IN
  IF res = <<>> THEN "missing"
  ELSE IF ~Enough(b, p, o) THEN (IF Head(res).ok THEN "no error at the end of the stream" ELSE "")
  ELSE IF ~Head(res).ok THEN "error"
  ELSE IF Head(res).v # Out(b, p, o) THEN "value"
  ELSE Walk(b, Step(b, p, o), Tail(ops), Tail(res))
Fault(e) == \E w \in {Walk(e.b, 1, e.ops, e.res)} : IF w = "" THEN TRUE ELSE Reject(l, w)
Next == l <= Len(Trace) /\ Fault(Trace[l]) /\ l' = l + 1
Spec == l = 1 /\ [][Next]_l
=============================================================================
