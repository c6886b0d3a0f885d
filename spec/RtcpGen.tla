------------------------------ MODULE RtcpGen -------------------------------
(* Enumerates RTCP packets: every type around the known ones, counts,      *)
(* lengths, and sender reports with their report blocks.                   *)
EXTENDS Rtcp, Json
CONSTANTS Cs, PTs, Cuts
VARIABLES c, pt, p, cut, v
vars == <<c, pt, p, cut, v>>
Dst(n, k) == [i \in 1..n |-> (i * 53 + k * 17) % 256]
Body == Dst(24 + 24 * c, IF v = 0 THEN 1 ELSE 9)
Ln == IF v = 0 THEN 6 + 6 * c ELSE 65279 - c
Whole == <<128 + (IF p THEN 32 ELSE 0) + c, pt, Ln \div 256, Ln % 256>> \o Body
Buf == SubSeq(Whole, 1, Len(Whole) - cut)
Init == c \in Cs /\ pt \in PTs /\ p \in BOOLEAN /\ cut \in Cuts /\ v \in 0..1 /\ cut <= 28
Spec == Init /\ [][FALSE]_vars
\* a sender report is refused exactly when a byte of its announced blocks is missing
Complete == LET u == Unpack(Buf) IN
  /\ (u.err <=> (Len(Buf) < 4 \/ (pt = SR /\ cut > 0)))
  /\ (~u.err => u.c = c /\ u.p = p /\ u.pt = pt /\ u.ln = Ln /\ (u.sr <=> pt = SR))
Emit == PrintT("CASE@" \o ToJson([buf |-> Buf, r |-> Unpack(Buf)]))
=============================================================================
