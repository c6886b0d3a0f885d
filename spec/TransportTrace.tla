--------------------------- MODULE TransportTrace ---------------------------
(* E.op "write": E.t was written as E.lower, E.params and read back as     *)
(* E.back.  "new": as write, for the value of stream E.i over E.proto.     *)
(* "read": E.h was read over E.t and gave E.got, or an error.              *)
EXTENDS Transport, TraceBase
VARIABLE l
E == Trace[l]
Of(names) == SelectSeq(E.params, LAMBDA p : p.n \in names)
Range(s) == {s[i] : i \in DOMAIN s}
Exact(s, set) == Range(s) = set /\ Len(s) = Cardinality(set)
Known == Flags \cup Pairs \cup {"interleaved"} \cup Numbers \cup Texts \cup {"destination"}
Written(t) == LET c == Carries(t) IN
  /\ (E.lower = "TCP") = t.tcp
  /\ \A i \in DOMAIN E.params : E.params[i].n \in Known
  /\ Exact([i \in DOMAIN Of(Flags) |-> Of(Flags)[i].n], c.flags)
  /\ Exact(Of(Pairs \cup {"interleaved"}), c.pairs) /\ Exact(Of(Numbers), c.nums)
  /\ Exact(Of(Texts \cup {"destination"}), c.texts)
OK == CASE E.op = "new" -> Written(New(E.proto, E.i)) /\ ~E.err /\ E.back = Carried(New(E.proto, E.i))
        [] E.op = "write" -> Written(E.t) /\ ~E.err /\ E.back = Carried(E.t)
        [] E.op = "read" -> IF Bad(E.h) THEN E.err ELSE ~E.err /\ E.got = Parse(E.t, E.h)
Step == /\ l <= Len(Trace) /\ l' = l + 1 /\ (OK \/ Reject(l, E.op))
TSpec == l = 1 /\ [][Step]_l
=============================================================================
