---------------------------- MODULE PipelineTrace ---------------------------
(* Recorded media, sent and received, of one session after the other.      *)
EXTENDS Pipeline, TraceBase
VARIABLES l, m
E == Trace[l]
Header(ch, h) == IF ch % 2 = 1 THEN h ELSE [m |-> h.m, pt |-> h.pt, sn |-> h.sn, ts |-> h.ts, ssrc |-> h.ssrc]
Same(us, vs) == /\ Len(us) = Len(vs)
                /\ \A i \in DOMAIN us : /\ us[i].h = vs[i].h /\ us[i].d = vs[i].d /\ us[i].ts = vs[i].ts
                                        /\ vs[i].don = -1 \/ us[i].don = vs[i].don
Why(r) == IF E.altered THEN "altered afterwards"
          ELSE IF E.err # r.h.err THEN "outcome of unpacking"
          ELSE IF E.err THEN ""
          ELSE IF E.h # Header(E.ch, r.h) THEN "header"
          ELSE IF E.ch % 2 = 1 \/ ~r.o.wf THEN ""
          ELSE IF E.perr THEN "payload refused"
          ELSE IF ~Same(E.units, r.o.units) THEN "units" ELSE ""
Missing == {ch \in DOMAIN m : m[ch].q # <<>>}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE E.e = "begin" -> m' = <<>>
             [] E.e = "sent" -> m' = Send(m, E.ch, E.b)
             [] E.e = "got" -> IF Of(m, E.ch).q = <<>> THEN m' = m /\ Reject(l, "nothing was sent")
                               ELSE \E t \in {Take(m, E.ch)} : \E w \in {Why(t.r)} :
                                    /\ m' = t.m
                                    /\ IF w = "" THEN TRUE ELSE Reject(l, w)
             [] OTHER -> m' = m /\ (IF Missing = {} THEN TRUE ELSE Reject(l, "missing"))
Spec == l = 1 /\ m = <<>> /\ [][Next]_<<l, m>>
=============================================================================
