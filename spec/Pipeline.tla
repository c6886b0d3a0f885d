------------------------------ MODULE Pipeline ------------------------------
(* V01.  Media from the camera to the player: what is sent on each channel *)
(* of a session (Rtp, Rtcp, Nal composed) and what arrives.  Even channels *)
(* carry RTP with H.264 payloads, odd ones RTCP.                           *)
(* A stream is [q, don, ser]: packets under way and the state of the       *)
(* depacketizer.                                                           *)
EXTENDS Integers, Sequences, TLC
R == INSTANCE Rtp
C == INSTANCE Rtcp
N(d, s) == INSTANCE Nal WITH don <- d, ser <- s
NoSeries == [open |-> "no"]

Fresh == [q |-> <<>>, don |-> 0, ser |-> NoSeries]
Of(m, ch) == IF ch \in DOMAIN m THEN m[ch] ELSE Fresh
With(m, ch, st) == (ch :> st) @@ m
Send(m, ch, b) == With(m, ch, [Of(m, ch) EXCEPT !.q = Append(@, b)])

\* What unpacking the packet b gives in state st: the header, the outcome of
\* the payload and the state after it.
Nothing == [wf |-> FALSE, units |-> <<>>]
Receive(st, ch, b) ==
  IF ch % 2 = 1 THEN [h |-> C!Unpack(b), o |-> Nothing, st |-> st]
  ELSE LET h == R!Unpack(b) IN
       IF h.err THEN [h |-> h, o |-> Nothing, st |-> st]
       ELSE LET o == N(st.don, st.ser)!Outcome(h.pl, h.ts) IN
            [h |-> h, o |-> o, st |-> [st EXCEPT !.don = o.don, !.ser = o.ser]]
\* the next packet on a channel is taken
Take(m, ch) == LET st == m[ch]  r == Receive(st, ch, Head(st.q)) IN
               [r |-> r, m |-> With(m, ch, [r.st EXCEPT !.q = Tail(@)])]
=============================================================================
