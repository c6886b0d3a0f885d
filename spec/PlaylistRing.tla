---------------------------- MODULE PlaylistRing ----------------------------
(* The ring of segments as net/hls/playlist.go keeps it: Segments, First,  *)
(* Last with -1 for empty.  TLC checks that it refines Playlist.           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS MaxCap, MaxAdds, Durs, Lens
VARIABLES seg, first, last, cap, hist
vars == <<seg, first, last, cap, hist>>

P == INSTANCE Playlist

Init == /\ cap \in 1..MaxCap
        /\ hist = <<>> /\ first = -1 /\ last = -1
        /\ seg = [i \in 0..(cap - 1) |-> [dur |-> 0, len |-> 0, pos |-> 0]]

AddSegment(d, n) ==
  LET pos == IF last >= 0 THEN seg[last].pos + seg[last].len ELSE 0
      nl  == (last + 1) % cap
  IN  /\ last' = nl
      /\ seg' = [seg EXCEPT ![nl] = [dur |-> d, len |-> n, pos |-> pos]]
      /\ first' = IF first = nl THEN (first + 1) % cap
                  ELSE IF first < 0 THEN nl ELSE first
      /\ hist' = Append(hist, <<d, n>>)
      /\ UNCHANGED cap

Next == /\ Len(hist) < MaxAdds
        /\ \E d \in Durs, n \in Lens : AddSegment(d, n)
Spec == Init /\ [][Next]_vars

RECURSIVE Walk(_)
Walk(i) == <<seg[i]>> \o (IF i = last THEN <<>> ELSE Walk((i + 1) % cap))
RingRender == IF first < 0 THEN <<>> ELSE Walk(first)

TypeOK == first \in -1..(cap - 1) /\ last \in -1..(cap - 1)
Refines == RingRender = P!Window(cap, hist)
Promises == P!Contiguous /\ P!LastIsNewest /\ P!SizeOK /\ P!StartsAtZero
RefinesSpec == [][\E d \in Durs, n \in Lens : P!Add(d, n)]_<<cap, hist>>

\* Every maximal history becomes a test case for the real code: the
\* expected rendering after every single addition.
Emit == Len(hist) = MaxAdds =>
  PrintT("CASE@" \o ToJson([cap |-> cap, adds |-> hist,
    windows |-> [k \in 1..Len(hist) |-> P!Window(cap, SubSeq(hist, 1, k))]]))
=============================================================================
