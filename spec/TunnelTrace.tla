----------------------------- MODULE TunnelTrace ----------------------------
(* Heads of the HTTP connections of recorded sessions, and what opening a  *)
(* session made of the answer to the GET.  "tunnel" lines: the cookies of  *)
(* tunnels, one after another, whoever opened them.                        *)
EXTENDS Tunnel, TraceBase
VARIABLES l, t, used
E == Trace[l]
Outcome(e) == LET a == Answer(e.b) IN
  CASE a.class = "ok" -> IF e.ok THEN {} ELSE {"good answer refused"}
    [] a.class \in {"bad", "cut"} -> IF e.ok THEN {"bad answer accepted"} ELSE {}
    [] OTHER -> {}
Found == CASE E.e = "http" -> HeadFaults(E.b, E.secrets) \cup OpenFaults(t, E.b)
           [] E.e = "open" -> Outcome(E)
           [] E.e = "tunnel" -> IF E.c \in used THEN {"cookie of another session"} ELSE {}
           [] E.e = "end" -> IF t.get # <<>> /\ (E.reqs > 0 => t.post # <<>>) THEN {} ELSE {"connections"}
           [] OTHER -> {}
Init == l = 1 /\ t = Closed /\ used = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ t' = CASE E.e = "begin" -> Closed [] E.e = "http" -> Opened(t, E.b) [] OTHER -> t
        /\ used' = IF E.e = "tunnel" THEN used \cup {E.c} ELSE used
        /\ \E f \in {Found} : IF f = {} THEN TRUE ELSE Reject(l, f)
Spec == Init /\ [][Next]_<<l, t, used>>
=============================================================================
