------------------------------ MODULE UdpTrace ------------------------------
(* Recorded traffic over UDP.                                              *)
EXTENDS Udp, TraceBase
VARIABLES l, u
vars == <<l, u>>
E == Trace[l]
OK == CASE E.e = "dat" -> CanDeliver(u, E.ch, E.sum)
        [] E.e = "quiet" -> Idle(u)
        [] E.e = "stopped" -> E.ok
        [] E.e = "free" -> E.ok = (u.on = {})
        [] OTHER -> TRUE
\* a datagram out of place is reported once
Skip(v) == IF E.ch \in DOMAIN v.q THEN [v EXCEPT !.q[E.ch] = SelectSeq(@, LAMBDA d : d # E.sum)] ELSE v
Init == l = 1 /\ u = Begin(1)
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ u' = CASE E.e = "begin" -> Begin(E.n)
                  [] E.e = "set" -> Set(u, E.i)
                  [] E.e = "ready" -> Readied(u)
                  [] E.e = "udp" -> Arrive(u, E.i, E.w, E.sum)
                  [] E.e = "dat" -> IF OK THEN Deliver(u, E.ch) ELSE Skip(u)
                  [] E.e = "stopped" -> Stop(u)
                  [] OTHER -> u
        /\ IF OK THEN TRUE ELSE Reject(l, E.e)
Spec == Init /\ [][Next]_vars
=============================================================================
