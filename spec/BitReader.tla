----------------------------- MODULE BitReader ------------------------------
(* B03.  Reading a buffer bit by bit (H.264 7.2, 9.1).                     *)
EXTENDS Bytes

VARIABLES buf,   \* the buffer
          pos    \* bits consumed
bvars == <<buf, pos>>

Avail(b, p) == 8 * Len(b) - p

\* ---- results: [err, v] with v a 32-bit pair, and the new position --------
Ok(v, p)  == [err |-> FALSE, v |-> v, pos |-> p]
Fail(p)   == [err |-> TRUE, v |-> <<0, 0>>, pos |-> p]

Read(b, p, n) == IF n > Avail(b, p) THEN Fail(p) ELSE Ok(Pair(Bits(b, p, n)), p + n)
Skip(b, p, n) == IF n > Avail(b, p) THEN Fail(p) ELSE Ok(<<0, 0>>, p + n)

RECURSIVE LeadingZeros(_, _)
LeadingZeros(b, p) == IF Avail(b, p) = 0 THEN 0
                      ELSE IF BitAt(b, p) = 1 THEN 0 ELSE 1 + LeadingZeros(b, p + 1)

\* Unsigned Exp-Golomb: z zeros, a one, z more bits; 2^z - 1 + those bits.
UE(b, p) == LET z == LeadingZeros(b, p) IN
  IF Avail(b, p) < 2 * z + 1 THEN Fail(p)
  ELSE IF z > 31 THEN [Fail(p) EXCEPT !.v = <<-1, -1>>]       \* not claimed
  ELSE Ok(Sub1(Pair(Bits(b, p + z, z + 1))), p + 2 * z + 1)

Half(x) == <<x[1] \div 2, ((x[1] % 2) * 65536 + x[2]) \div 2>>
Neg(x)  == Add32(<<65535 - x[1], 65535 - x[2]>>, <<0, 1>>)
\* Signed Exp-Golomb: 0, 1, -1, 2, -2, ... as 32-bit two's complement.
Signed(k) == IF k[2] % 2 = 0 THEN Neg(Half(k)) ELSE Add32(Half(k), <<0, 1>>)
SE(b, p) == LET u == UE(b, p) IN IF u.err THEN u ELSE [u EXCEPT !.v = Signed(u.v)]

\* Stop bit and alignment zeros up to the end of the current byte.
Trailing(b, p) ==
  IF Avail(b, p) = 0 THEN Fail(p)
  ELSE LET e == p + 8 - (p % 8) IN
       IF BitAt(b, p) = 1 /\ \A q \in (p + 1)..(e - 1) : BitAt(b, q) = 0
       THEN Ok(<<0, 0>>, e) ELSE Fail(p)

\* SEI payload type or size: FF bytes add up, the first other byte ends it.
RECURSIVE Sei(_, _, _)
Sei(b, p, sum) ==
  IF Avail(b, p) < 8 THEN Fail(p)
  ELSE LET x == ValOf(Bits(b, p, 8)) IN
       IF x = 255 THEN Sei(b, p + 8, sum + 255) ELSE Ok(Int2Pair(sum + x), p + 8)

Result(op, n, b, p) ==
  CASE op = "read" -> Read(b, p, n)
    [] op = "byte" -> Read(b, p, n)
    [] op = "flag" -> Read(b, p, 1)
    [] op = "skip" -> Skip(b, p, n)
    [] op = "ue"   -> UE(b, p)
    [] op = "se"   -> SE(b, p)
    [] op = "skipue" -> LET u == UE(b, p) IN [u EXCEPT !.v = <<0, 0>>]
    [] op = "trail" -> Trailing(b, p)
    [] op = "sei"  -> Sei(b, p, 0)

\* Plain reads and skips consume nothing when they fail; what a failed
\* variable-length read consumes is not promised.
Exact(op) == op \in {"read", "byte", "flag", "skip"}
Claimed(op, b, p) == op \notin {"ue", "se", "skipue"} \/ LeadingZeros(b, p) <= 31

New(b) == buf' = b /\ pos' = 0
=============================================================================
