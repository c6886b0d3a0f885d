--------------------------- MODULE PlaylistTrace ---------------------------
(* Validates recorded playlist histories against Playlist.                 *)
EXTENDS Playlist, TraceBase
VARIABLE l
tvars == <<l, cap, hist>>
E == Trace[l]
Conforms ==
  CASE E.op = "render" -> E.ok /\ E.rows = [i \in 1..Shown(cap, hist) |->
          LET w == Window(cap, hist)[i] IN <<w.dur, w.len, w.pos>>]
    [] OTHER -> E.ok
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE E.op = "new" -> New(E.cap)
             [] E.op = "add" -> Add(E.dur, E.len)
             [] OTHER -> Render
        /\ Conforms \/ Reject(l, E.op)
TInit == l = 1 /\ cap = 0 /\ hist = <<>>
TSpec == TInit /\ [][Step]_tvars
=============================================================================
