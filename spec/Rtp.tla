-------------------------------- MODULE Rtp --------------------------------
(* R01.  RTP packet layout (RFC 3550 section 5.1) as a walk over the       *)
(* buffer, and its inverse.                                               *)
EXTENDS Bytes

Err == [err |-> TRUE]

\* What unpacking buffer b has to yield.
Unpack(b) ==
  IF Len(b) < 12 THEN Err ELSE
  LET cc   == b[1] % 16
      x    == (b[1] \div 16) % 2 = 1
      p    == (b[1] \div 32) % 2 = 1
      off1 == 12 + 4 * cc                      \* end of the CSRC list
      off2 == IF x THEN off1 + 4 ELSE off1     \* end of the extension header
  IN IF b[1] \div 64 # 2 \/ Len(b) < off2 THEN Err ELSE
  LET xh  == IF x THEN U16(b, off1) ELSE 0
      xl  == IF x THEN U16(b, off1 + 2) ELSE 0
      off3 == off2 + 4 * xl                    \* end of the extension
      pad == IF p THEN b[Len(b)] ELSE 0
  IN IF Len(b) < off3 THEN Err
     ELSE IF p /\ pad > Len(b) - off3 THEN Err
     ELSE IF p /\ Len(b) = off3 THEN Err
     ELSE [err |-> FALSE, p |-> p, x |-> x, m |-> b[2] >= 128, cc |-> cc, pt |-> b[2] % 128,
           sn |-> U16(b, 2), ts |-> U32(b, 4), ssrc |-> U32(b, 8),
           csrc |-> [i \in 1..cc |-> U32(b, 12 + 4 * (i - 1))],
           xh |-> xh, xl |-> xl, xd |-> Slice(b, off2, 4 * xl),
           pl |-> SubSeq(b, off3 + 1, Len(b) - pad)]

\* P set with a padding count of zero is malformed; the standard does not say
\* what a receiver does then, so an error is accepted as well.
Ambiguous(b) == Len(b) > 0 /\ (b[1] \div 32) % 2 = 1 /\ b[Len(b)] = 0

\* The packet a sender builds; bytes is the padding including its count.
B16(v) == <<v \div 256, v % 256>>
B32(v) == B16(v[1]) \o B16(v[2])
RECURSIVE B32s(_)
B32s(s) == IF s = <<>> THEN <<>> ELSE B32(Head(s)) \o B32s(Tail(s))
Bit(f, w) == IF f THEN w ELSE 0
Pack(r, padding) ==
  <<128 + Bit(r.p, 32) + Bit(r.x, 16) + r.cc, Bit(r.m, 128) + r.pt>> \o B16(r.sn) \o B32(r.ts)
  \o B32(r.ssrc) \o B32s(r.csrc) \o (IF r.x THEN B16(r.xh) \o B16(r.xl) \o r.xd ELSE <<>>)
  \o r.pl \o padding
=============================================================================
