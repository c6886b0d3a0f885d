---------------------------- MODULE MessageTrace ----------------------------
(* Each line is one stream b with what was unpacked from it: msgs with     *)
(* status, code, cseq, headers (as [n, v]) and body, and the failure.      *)
EXTENDS Message, TraceBase
VARIABLE l
SetOf(s) == {s[i] : i \in DOMAIN s}
Same(m, r) == /\ r.status = m.status /\ r.code = m.code /\ r.body = m.body
              /\ {[n |-> Lc(h.n), v |-> h.v] : h \in SetOf(r.headers)} = SetOf(m.hdrs) /\ Len(r.headers) = Cardinality(SetOf(m.hdrs))
              /\ (IsNumber(Get(m.hdrs, CSEQ)) => r.cseq = Number(Get(m.hdrs, CSEQ)))
              /\ r.length = Len(m.body) /\ r.proto = "RTSP/1.0"
\* fail: "" (all messages asked for came), "timeout", or another error
Fault(e) == \E p \in {Parse(e.b)} :
   IF Len(e.msgs) # Len(p.msgs) THEN Reject(l, "count")
   ELSE IF \E i \in DOMAIN p.msgs : ~Same(p.msgs[i], e.msgs[i]) THEN Reject(l, "content")
   ELSE IF p.end = "error" /\ e.fail \in {"", "timeout"} THEN Reject(l, "outcome")
   ELSE TRUE
Next == l <= Len(Trace) /\ Fault(Trace[l]) /\ l' = l + 1
Spec == l = 1 /\ [][Next]_l
=============================================================================
