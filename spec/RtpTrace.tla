------------------------------ MODULE RtpTrace ------------------------------
(* Every recorded unpacking is what Rtp or Rtcp prescribes.                *)
EXTENDS TraceBase
VARIABLE l
RTP == INSTANCE Rtp
RTCP == INSTANCE Rtcp
E == Trace[l]
Conforms ==
  IF E.op = "rtp" THEN
    \/ E.r = RTP!Unpack(E.buf)
    \/ RTP!Ambiguous(E.buf) /\ E.r = RTP!Err
  ELSE E.r = RTCP!Unpack(E.buf)
Step == l <= Len(Trace) /\ l' = l + 1 /\ (Conforms \/ Reject(l, E.op))
TSpec == l = 1 /\ [][Step]_l
=============================================================================
