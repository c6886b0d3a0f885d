---------------------------- MODULE BitReaderGen ----------------------------
(* All short operation sequences over a few buffers.                       *)
EXTENDS BitReader, TLC, Json
CONSTANTS Buffers, Ops, MaxOps
Bufs == {<<>>, <<181>>, <<0, 128>>, <<255, 90, 1>>, <<0, 0, 9, 255, 128>>, <<77, 178, 192, 3, 254, 17, 136>>}
SomeOps == {<<"read", n>> : n \in {0, 1, 3, 7, 8, 9, 25, 31, 32}} \cup {<<"byte", 5>>, <<"flag", 1>>}
  \cup {<<"skip", n>> : n \in {0, 2, 8, 26}} \cup {<<o, 0>> : o \in {"ue", "se", "skipue", "trail", "sei"}}
VARIABLE hist          \* <<op, n, err, v, available after>> ...
vars == <<buf, pos, hist>>
Init == buf \in Buffers /\ pos = 0 /\ hist = <<>>
Stopped == hist # <<>> /\ ~Exact(hist[Len(hist)][1]) /\ hist[Len(hist)][3]
Next == /\ Len(hist) < MaxOps /\ ~Stopped
        /\ \E o \in Ops :
             LET r == Result(o[1], o[2], buf, pos) IN
             /\ pos' = r.pos
             /\ hist' = Append(hist, <<o[1], o[2], r.err, r.v, Avail(buf, r.pos)>>)
             /\ UNCHANGED buf
Spec == Init /\ [][Next]_vars
InRange == pos \in 0..(8 * Len(buf))
\* reading in two halves is reading at once
Additive == \A n \in 0..(Min2(Avail(buf, pos), 12)) : \A k \in 0..n :
   LET w == Read(buf, pos, n) x == Read(buf, pos, k) y == Read(buf, pos + k, n - k) IN
   w.v[2] = x.v[2] * Pow2(n - k) + y.v[2] /\ y.pos = w.pos
Monotone == [][pos' >= pos]_vars
Emit == (Len(hist) = MaxOps \/ Stopped) => PrintT("CASE@" \o ToJson([buf |-> buf, h |-> hist]))
=============================================================================
