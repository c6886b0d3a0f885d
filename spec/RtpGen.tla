------------------------------- MODULE RtpGen -------------------------------
(* Enumerates packet shapes; each is a packet a sender may build.  TLC     *)
(* checks that Unpack inverts Pack and that no proper prefix cut inside    *)
(* the header part is accepted, and emits every shape as a case.           *)
EXTENDS Rtp, TLC, Json
CONSTANTS CCs, XLs, PLs, Pads
VARIABLE r, padding
Dst(n, k) == [i \in 1..n |-> (i * 37 + k * 11) % 256]
Init ==
  \E cc \in CCs, x \in {-1} \cup XLs, pl \in PLs, pad \in Pads, m \in BOOLEAN, v \in 0..1 :
    /\ padding = IF pad = 0 THEN <<>> ELSE Dst(pad - 1, 3) \o <<pad>>
    /\ r = [err |-> FALSE, p |-> pad > 0, x |-> x >= 0, m |-> m, cc |-> cc, pt |-> IF v = 0 THEN 96 ELSE 127,
            sn |-> IF v = 0 THEN 65534 ELSE 258, ts |-> IF v = 0 THEN <<65535, 1>> ELSE <<3, 32769>>,
            ssrc |-> <<4660 + v, 43981>>, csrc |-> [i \in 1..cc |-> <<i * 4096 + v, 65535 - i>>],
            xh |-> IF x >= 0 THEN 48862 ELSE 0, xl |-> IF x >= 0 THEN x ELSE 0,
            xd |-> Dst(IF x >= 0 THEN 4 * x ELSE 0, 5), pl |-> Dst(pl, 7)]
Spec == Init /\ [][FALSE]_<<r, padding>>
Buf == Pack(r, padding)
Head0 == Len(Buf) - Len(r.pl) - Len(padding)
RoundTrip == Unpack(Buf) = r
Prefixes == \A n \in 0..(Head0 - 1) : Unpack(SubSeq(Buf, 1, n)) = Err
OtherVersion == \A v \in {0, 64, 192} : Unpack([Buf EXCEPT ![1] = (@ % 64) + v]) = Err
Emit == PrintT("CASE@" \o ToJson([buf |-> Buf, head |-> Head0, r |-> r]))
=============================================================================
