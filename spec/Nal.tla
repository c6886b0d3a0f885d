-------------------------------- MODULE Nal --------------------------------
(* N01-N03.  The H.264 depacketizer (RFC 6184 section 5) as a state        *)
(* machine fed with RTP payloads.                                          *)
EXTENDS Bytes

AB == INSTANCE AnnexB

NoSeries == [open |-> "no"]
AnySeries == [open |-> "any"]      \* after a malformed payload: not claimed
Unknown == -1                      \* implicit decoding order number not claimed

VARIABLES don,   \* next implicit decoding order number, or Unknown
          ser    \* fragment series in progress
nvars == <<don, ser>>
NInit == don = 0 /\ ser = NoSeries

StapA == 24  StapB == 25  Mtap16 == 26  Mtap24 == 27  FuA == 28  FuB == 29
Type(b)  == b[1] % 32
Step1(d) == IF d = Unknown THEN Unknown ELSE Add16(d, 1)
StepN(d, n) == IF d = Unknown THEN Unknown ELSE Add16(d, n)

IsStream(b) == \/ Len(b) >= 3 /\ b[1] = 0 /\ b[2] = 0 /\ b[3] = 1
               \/ Len(b) >= 4 /\ b[1] = 0 /\ b[2] = 0 /\ b[3] = 0 /\ b[4] = 1

Unit(nal, d, ts) == [h |-> nal[1], don |-> d, ts |-> ts, d |-> AB!Unescape(From(nal, 2))]

\* Outcome of a payload.  wf: the payload is one the RFC allows, so the
\* outcome is claimed; class: which property speaks about its content.
Out(class, us, d, s) == [wf |-> TRUE, class |-> class, units |-> us, don |-> d, ser |-> s]
Bad == [wf |-> FALSE, class |-> "bad", units |-> <<>>, don |-> Unknown, ser |-> AnySeries]

\* ---- aggregation ---------------------------------------------------------
\* Entries of an aggregation: each is <<skip, nal>> where skip is what stands
\* between size and unit (nothing for STAP, DOND and offset for MTAP).
BadEntry == <<>>
RECURSIVE Entries(_, _)
Entries(b, skip) ==
  IF b = <<>> THEN <<>>
  ELSE IF Len(b) < 2 + skip THEN <<BadEntry>>
  ELSE LET n == U16(b, 0) IN
       IF n = 0 \/ Len(b) < 2 + skip + n THEN <<BadEntry>>
       ELSE <<<<Slice(b, 2, skip), Slice(b, 2 + skip, n)>>>> \o Entries(From(b, 3 + skip + n), skip)
Sound(es) == es # <<>> /\ es[Len(es)] # BadEntry

Stap(b, d, d2, ts) ==          \* d: number of the first unit
  LET es == Entries(b, 0) IN
  IF ~Sound(es) THEN Bad
  ELSE Out("content", [i \in 1..Len(es) |-> Unit(es[i][2], StepN(d, i - 1), ts)], StepN(d2, Len(es)), NoSeries)

Offset(x) == IF Len(x) = 3 THEN <<0, U16(x, 1)>> ELSE <<x[2], U16(x, 2)>>
Mtap(b, skip, ts) ==
  IF Len(b) < 2 THEN Bad ELSE
  LET es == Entries(From(b, 3), skip) base == U16(b, 0) IN
  IF ~Sound(es) THEN Bad
  ELSE Out("content", [i \in 1..Len(es) |-> Unit(es[i][2], Add16(base, es[i][1][1]), Add32(ts, Offset(es[i][1])))],
           Unknown, NoSeries)

\* ---- fragmentation -------------------------------------------------------
IsStart(f) == f >= 128
IsEnd(f)   == (f \div 64) % 2 = 1
Restored(b) == ((b[1] \div 32) % 4) * 32 + (b[2] % 32)    \* original header byte

Fu(b, ts) ==
  LET isB == Type(b) = FuB
      h   == Restored(b)
      ann == IF isB THEN U16(b, 2) ELSE don
      dat == From(b, IF isB THEN 5 ELSE 3)
      s0  == IF IsStart(b[2]) THEN [open |-> "yes", h |-> h, ts |-> ts, don |-> ann, data |-> dat, b |-> isB]
             ELSE IF ser.open = "yes" /\ ser.h = h /\ ser.ts = ts THEN [ser EXCEPT !.data = @ \o dat]
             ELSE NoSeries
  IN IF IsStart(b[2]) /\ IsEnd(b[2]) THEN Bad              \* forbidden by the RFC
     ELSE IF isB /\ ~IsStart(b[2]) THEN Bad                \* likewise
     ELSE IF ~IsStart(b[2]) /\ ser.open = "any" THEN Bad
     ELSE IF ~IsEnd(b[2]) \/ s0.open = "no" THEN
          Out("fragment", <<>>, IF isB THEN Unknown ELSE don, s0)
     ELSE Out("fragment", <<[h |-> s0.h, don |-> s0.don, ts |-> s0.ts, d |-> AB!Unescape(s0.data)]>>,
              IF s0.b THEN Unknown ELSE Step1(don), NoSeries)

\* ---- a payload -----------------------------------------------------------
Outcome(b, ts) ==
  IF b = <<>> THEN Bad
  ELSE IF IsStream(b) THEN
       LET us == AB!Scan(b) IN
       IF us = <<>> \/ \E i \in DOMAIN us : (us[i][1] % 32) \notin 1..23 \/ ~AB!IsUnit(us[i]) THEN Bad
       ELSE Out("content", [i \in 1..Len(us) |-> Unit(us[i], StepN(don, i - 1), ts)], StepN(don, Len(us)), NoSeries)
  ELSE LET t == Type(b) IN
       CASE t \in 1..23  -> Out("content", <<Unit(b, don, ts)>>, Step1(don), NoSeries)
         [] t = StapA    -> Stap(From(b, 2), don, don, ts)
         [] t = StapB    -> IF Len(b) < 3 THEN Bad ELSE Stap(From(b, 4), U16(b, 1), Unknown, ts)
         [] t = Mtap16   -> Mtap(From(b, 2), 3, ts)
         [] t = Mtap24   -> Mtap(From(b, 2), 4, ts)
         [] t = FuA      -> IF Len(b) < 2 \/ b[1] >= 128 THEN Bad ELSE Fu(b, ts)
         [] t = FuB      -> IF Len(b) < 4 \/ b[1] >= 128 THEN Bad ELSE Fu(b, ts)
         [] OTHER        -> Bad
Push(o) == don' = o.don /\ ser' = o.ser

\* ---- signed distance of decoding order numbers ---------------------------
\* 32768 apart, either sign is as near.
IsDonDiff(a, b, d) == (a + d) % 65536 = b /\ d >= -32768 /\ d <= 32768
=============================================================================
