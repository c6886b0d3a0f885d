------------------------------- MODULE AnnexB -------------------------------
(* B01, B02.  The Annex B byte stream (H.264 Annex B) and emulation        *)
(* prevention (7.4.1), each as a scanner that walks byte by byte.          *)
EXTENDS Bytes

\* ---- emulation prevention ------------------------------------------------
\* Removing: a 3 after two zero bytes is dropped, and the count starts anew.
RECURSIVE UnescFrom(_, _, _)
UnescFrom(b, i, z) ==
  IF i > Len(b) THEN <<>>
  ELSE IF b[i] = 3 /\ z >= 2 THEN UnescFrom(b, i + 1, 0)
  ELSE <<b[i]>> \o UnescFrom(b, i + 1, IF b[i] = 0 THEN z + 1 ELSE 0)
Unescape0(b) == UnescFrom(b, 1, 0)
\* The same, by position (EpbGen checks that they agree): fast on long buffers.
RECURSIVE Pieces(_, _, _)
Pieces(b, ds, i) ==
  LET later == {d \in ds : d >= i} IN
  IF later = {} THEN From(b, i)
  ELSE LET d == CHOOSE x \in later : \A y \in later : x <= y
       IN  SubSeq(b, i, d - 1) \o Pieces(b, later, d + 1)
Unescape(b) == Pieces(b, {i \in 3..Len(b) : b[i] = 3 /\ b[i - 1] = 0 /\ b[i - 2] = 0}, 1)

\* Adding: a byte of 0..3 after two zero bytes is preceded by a 3.
RECURSIVE EscFrom(_, _, _)
EscFrom(b, i, z) ==
  IF i > Len(b) THEN <<>>
  ELSE IF z = 2 /\ b[i] <= 3 THEN <<3, b[i]>> \o EscFrom(b, i + 1, IF b[i] = 0 THEN 1 ELSE 0)
  ELSE <<b[i]>> \o EscFrom(b, i + 1, IF b[i] = 0 THEN z + 1 ELSE 0)
Escape(b) == EscFrom(b, 1, 0)

\* No start code or reserved pattern inside.
Safe(e) == \A i \in 1..(Len(e) - 2) : ~(e[i] = 0 /\ e[i + 1] = 0 /\ e[i + 2] <= 2)
\* An encapsulation of b, whichever way it was made.
IsEncapsulation(e, b) == Safe(e) /\ Unescape(e) = b

\* ---- byte stream ----------------------------------------------------------
\* A NAL unit as it may stand in a stream: not empty, safe, not ending in 0.
IsUnit(u) == u # <<>> /\ Safe(u) /\ u[Len(u)] # 0
\* zeros[i] zero bytes and a 1 before unit i, trail zero bytes at the end.
RECURSIVE AssembleFrom(_, _, _)
AssembleFrom(us, zeros, i) ==
  IF i > Len(us) THEN <<>>
  ELSE Zeros(zeros[i]) \o <<1>> \o us[i] \o AssembleFrom(us, zeros, i + 1)
Assemble(us, zeros, trail) == AssembleFrom(us, zeros, 1) \o Zeros(trail)

\* Scanner: z = zero bytes seen and not yet placed; in = inside a unit.
RECURSIVE ScanFrom(_, _, _, _, _)
ScanFrom(b, i, z, in, cur) ==
  LET done == IF cur = <<>> THEN <<>> ELSE <<cur>> IN
  IF i > Len(b) THEN done
  ELSE IF b[i] = 0 THEN ScanFrom(b, i + 1, z + 1, in, cur)
  ELSE IF b[i] = 1 /\ z >= 2 THEN done \o ScanFrom(b, i + 1, 0, TRUE, <<>>)
  ELSE IF in THEN ScanFrom(b, i + 1, 0, TRUE, cur \o Zeros(z) \o <<b[i]>>)
  ELSE ScanFrom(b, i + 1, 0, FALSE, <<>>)
Scan(b) == ScanFrom(b, 1, 0, FALSE, <<>>)
Split(b) == LET us == Scan(b) IN [i \in 1..Len(us) |-> Unescape(us[i])]
=============================================================================
