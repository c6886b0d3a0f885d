-------------------------------- MODULE Rtcp --------------------------------
(* R02.  RTCP header and sender report (RFC 3550 sections 6.1, 6.4.1).     *)
EXTENDS Bytes, TLC
Err == [err |-> TRUE]
SR == 200
Unpack(b) ==
  IF Len(b) < 4 THEN Err
  ELSE IF b[1] \div 64 # 2 THEN Err
  ELSE LET c == b[1] % 32
           hdr == [err |-> FALSE, p |-> (b[1] \div 32) % 2 = 1, c |-> c, pt |-> b[2], ln |-> U16(b, 2)]
       IN IF b[2] # SR THEN hdr @@ [sr |-> FALSE]
          ELSE IF Len(b) < 28 + 24 * c THEN Err
          ELSE hdr @@ [sr |-> TRUE, ssrc |-> U32(b, 4), ntp |-> U64(b, 8), rtpts |-> U32(b, 16),
                       pc |-> U32(b, 20), oc |-> U32(b, 24)]
=============================================================================
