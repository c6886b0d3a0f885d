------------------------------ MODULE Playlist ------------------------------
(* H01.  The playlist as the user sees it: the history of added segments   *)
(* and a window over its last N entries, laid out back to back.            *)
EXTENDS Integers, Sequences

VARIABLES cap,     \* room for so many segments
          hist     \* every segment ever added, <<duration, length>>
pvars == <<cap, hist>>

RECURSIVE SumLen(_, _)
SumLen(h, n) == IF n = 0 THEN 0 ELSE SumLen(h, n - 1) + h[n][2]

Shown(c, h) == IF Len(h) < c THEN Len(h) ELSE c
\* Rendered entries: duration, length, offset; oldest first.
Window(c, h) ==
  [i \in 1..Shown(c, h) |->
     LET k == Len(h) - Shown(c, h) + i
     IN  [dur |-> h[k][1], len |-> h[k][2], pos |-> SumLen(h, k - 1)]]

New(c)    == cap' = c /\ hist' = <<>>
Add(d, n) == hist' = Append(hist, <<d, n>>) /\ UNCHANGED cap
Render    == UNCHANGED pvars            \* rendering has no side effect

\* ---- what the window promises, independent of how it is defined ----
Contiguous == LET w == Window(cap, hist) IN
  \A i \in 1..(Len(w) - 1) : w[i + 1].pos = w[i].pos + w[i].len
LastIsNewest == hist # <<>> /\ cap > 0 =>
  LET w == Window(cap, hist) IN w[Len(w)].dur = hist[Len(hist)][1]
SizeOK == Len(Window(cap, hist)) = Shown(cap, hist)
StartsAtZero == Len(hist) \in 1..cap => Window(cap, hist)[1].pos = 0
=============================================================================
