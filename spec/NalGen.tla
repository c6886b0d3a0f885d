------------------------------- MODULE NalGen -------------------------------
(* All short payload sequences over a palette of payloads: the sequences   *)
(* are replayed into the real depacketizer.                                *)
EXTENDS Nal, TLC, Json
CONSTANTS MaxPush, Palette
VARIABLE hist
vars == <<don, ser, hist>>
T1 == <<0, 5000>>
T2 == <<65535, 65530>>
P(b, ts) == <<b, ts>>
\* the emulation prevention byte of the fragmented unit is cut in every way;
\* sizes, numbers and offsets imitate start codes and emulation prevention
Singles == {P(<<65>>, T1), P(<<103, 0, 0, 3, 1, 9>>, T2)}
Streams == {P(<<0, 0, 1, 65, 7, 0, 0, 0, 1, 104, 0, 0, 3, 2>>, T1)}
Aggregates == {
  P(<<24, 0, 3, 103, 0, 0, 0, 1, 104>>, T1), P(<<24, 0, 0>>, T1),
  P(<<120, 0, 6, 65, 0, 0, 3, 3, 8>>, T1),
  P(<<25, 0, 0, 0, 3, 65, 1, 2, 0, 1, 97>>, T2), P(<<25, 255, 255, 0, 1, 67, 0, 2, 65, 9>>, T1),
  P(<<26, 255, 254, 0, 2, 0, 0, 1, 65, 1, 0, 1, 3, 0, 3, 97>>, T2),
  P(<<27, 0, 0, 0, 1, 1, 0, 0, 1, 65, 0, 1, 200, 255, 255, 255, 65>>, T2)}
Frags == {
  P(<<124, 133, 0, 7, 0>>, T1), P(<<124, 5, 0, 3>>, T1), P(<<124, 5>>, T1), P(<<124, 69, 1, 0, 0>>, T1),
  P(<<60, 129, 1>>, T1), P(<<60, 65, 2>>, T1), P(<<124, 69, 44>>, T2),
  P(<<125, 133, 255, 255, 4>>, T1), P(<<125, 133, 0, 9, 0, 0>>, T2)}
All == Singles \cup Streams \cup Aggregates \cup Frags
FragsAnd == Frags \cup {P(<<65>>, T1), P(<<24, 0, 1, 103, 0, 1, 104>>, T1), P(<<124>>, T1),
                        P(<<0, 0, 0, 1, 69, 7>>, T1)}
FragsAll == FragsAnd \cup {P(<<25, 0, 0, 0, 3, 65, 1, 2>>, T1), P(<<26, 255, 254, 0, 2, 0, 0, 0, 65, 1>>, T1),
                        P(<<27, 0, 0, 0, 1, 1, 0, 0, 0, 65>>, T1)}
Init == NInit /\ hist = <<>>
Next == /\ Len(hist) < MaxPush
        /\ \E p \in Palette : LET o == Outcome(p[1], p[2]) IN
             /\ Push(o)
             /\ hist' = Append(hist, [buf |-> p[1], ts |-> p[2], wf |-> o.wf, class |-> o.class, units |-> o.units])
Spec == Init /\ [][Next]_vars
\* a unit delivered from fragments consists of consecutive payloads that start
\* with its start and end with its end
WholeSeries ==
  \A k \in DOMAIN hist : hist[k].class = "fragment" /\ hist[k].units # <<>> =>
    \E j \in 1..(k - 1) :
      /\ hist[j].class = "fragment" /\ IsStart(hist[j].buf[2])
      /\ \A i \in (j + 1)..k : hist[i].class = "fragment" /\ ~IsStart(hist[i].buf[2]) /\ hist[i].ts = hist[j].ts
                               /\ Restored(hist[i].buf) = Restored(hist[j].buf)
      /\ AB!Unescape(FlattenB([i \in 1..(k - j + 1) |->
            From(hist[j + i - 1].buf, IF Type(hist[j + i - 1].buf) = FuB THEN 5 ELSE 3)])) = hist[k].units[1].d
Emit == Len(hist) = MaxPush => PrintT("CASE@" \o ToJson(hist))
=============================================================================
