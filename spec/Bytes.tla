------------------------------- MODULE Bytes -------------------------------
(* Byte- and bit-sequence vocabulary shared by the media specifications.   *)
(* A byte is 0..255; a buffer is a sequence of bytes; a bit is 0 or 1.     *)
(* 32-bit quantities exceed TLC's integers, so they are pairs <<hi, lo>>   *)
(* of 16-bit halves (most significant half first).                         *)
EXTENDS Integers, Sequences

From(b, i)   == SubSeq(b, i, Len(b))                 \* suffix starting at i
Slice(b, off, n) == SubSeq(b, off + 1, off + n)      \* n bytes at 0-based offset
U16(b, off)  == b[off + 1] * 256 + b[off + 2]        \* big endian, 0-based
U32(b, off)  == <<U16(b, off), U16(b, off + 2)>>
U64(b, off)  == <<U16(b, off), U16(b, off + 2), U16(b, off + 4), U16(b, off + 6)>>

Add16(a, c)  == (a + c) % 65536
\* 32-bit addition modulo 2^32 on pairs
Add32(x, y)  == LET lo == x[2] + y[2]
                IN  <<(x[1] + y[1] + (lo \div 65536)) % 65536, lo % 65536>>

Pow2(n) == 2 ^ n
BitAt(b, p) == (b[(p \div 8) + 1] \div Pow2(7 - (p % 8))) % 2     \* 0-based bit p
Bits(b, p, n) == [i \in 1..n |-> BitAt(b, p + i - 1)]
\* value of a bit sequence as <<hi, lo>> (at most 32 bits)
RECURSIVE ValOf(_)
ValOf(s) == IF s = <<>> THEN 0 ELSE 2 * ValOf(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)]
Pair(s) == IF Len(s) <= 16 THEN <<0, ValOf(s)>>
           ELSE <<ValOf(SubSeq(s, 1, Len(s) - 16)), ValOf(SubSeq(s, Len(s) - 15, Len(s)))>>
Int2Pair(n) == <<n \div 65536, n % 65536>>           \* small naturals only
Sub1(x) == IF x[2] > 0 THEN <<x[1], x[2] - 1>> ELSE <<x[1] - 1, 65535>>

RECURSIVE FlattenB(_)
FlattenB(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenB(Tail(ss))
Zeros(n) == [i \in 1..n |-> 0]
Max2(a, c) == IF a > c THEN a ELSE c
Min2(a, c) == IF a < c THEN a ELSE c
=============================================================================
