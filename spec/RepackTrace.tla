----------------------------- MODULE RepackTrace ----------------------------
(* M02.  Line "repack": the responses of stream b, packed one after another*)
(* as packed and unpacked again as msgs.  Packed must say the same, with   *)
(* nothing in between and nothing left over.                               *)
(* Line "header": operations on a header map and what Get answered.        *)
EXTENDS Message, Header, TraceBase
VARIABLE l
SetOf(s) == {s[i] : i \in DOMAIN s}
\* two messages that differ in the order of their headers at most
Alike(m, w) == /\ m.status = w.status /\ m.code = w.code /\ m.body = w.body
               /\ SetOf(m.hdrs) = SetOf(w.hdrs) /\ Len(w.hdrs) = Cardinality(SetOf(m.hdrs))
Same(m, r) == /\ r.status = m.status /\ r.code = m.code /\ r.body = m.body
              /\ {[n |-> Lc(h.n), v |-> h.v] : h \in SetOf(r.headers)} = SetOf(m.hdrs) /\ Len(r.headers) = Cardinality(SetOf(m.hdrs))
              /\ (IsNumber(Get(m.hdrs, CSEQ)) => r.cseq = Number(Get(m.hdrs, CSEQ)))
              /\ r.length = Len(m.body) /\ r.proto = "RTSP/1.0"
Repack(e) ==
  \E p \in {Parse(e.b)} : \E q \in {Parse(e.packed)} :
   IF q.end # "clean" \/ Len(q.msgs) # Len(p.msgs) THEN Reject(l, "framing")
   ELSE IF \E i \in DOMAIN p.msgs : ~Alike(p.msgs[i], q.msgs[i]) THEN Reject(l, "packed")
   ELSE IF e.size2 # Len(e.packed) THEN Reject(l, "again")
   ELSE IF Len(e.msgs) # Len(p.msgs) \/ \E i \in DOMAIN p.msgs : ~Same(p.msgs[i], e.msgs[i]) THEN Reject(l, "unpacked")
   ELSE TRUE
HeaderLine(e) == IF Answers(<<>>, e.ops, <<>>) # e.outs \/ Size(e.ops) # e.size THEN Reject(l, "header") ELSE TRUE
Fault(e) == IF e.k = "repack" THEN Repack(e) ELSE HeaderLine(e)
Next == l <= Len(Trace) /\ Fault(Trace[l]) /\ l' = l + 1
Spec == l = 1 /\ [][Next]_l
=============================================================================
