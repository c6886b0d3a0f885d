----------------------------- MODULE PipelineGen ----------------------------
(* A camera sends the units of two streams in all the ways it may packetize *)
(* and interleave them, with reports between; the receiver takes packets as *)
(* they come.  What the receiver has is what the camera has sent.           *)
EXTENDS Pipeline, Json
CONSTANTS Chs, MaxPieces, MaxReports, MaxLost, Want
AB == INSTANCE AnnexB
\* the units of each stream: parameter set and slices, one with octets that
\* need emulation prevention
Units == <<<<<<103, 66>>, <<101, 0, 0, 3, 1>>, <<65, 5>>>>, <<<<97, 2, 3>>, <<65, 36>>>>>>
Of2(ch) == Units[(ch \div 2) + 1]
VARIABLES sent,    \* per channel: units sent completely
          part,    \* per channel: octets of the next unit sent as fragments
          gap,     \* per channel: the unit under way lost a fragment
          seq,     \* per channel: packets sent
          wire,    \* stream states of the receiver, packets under way
          out,     \* per channel: units received
          due,     \* per channel: units that have to be received
          pc, hist, reports, lost
vars == <<pc, sent, part, gap, seq, wire, out, due, hist, reports, lost>>
Init == /\ sent = [c \in Chs |-> 0] /\ part = [c \in Chs |-> 0] /\ gap = [c \in Chs |-> FALSE] /\ seq = [c \in Chs |-> 0]
        /\ wire = <<>> /\ out = [c \in Chs |-> <<>>] /\ due = [c \in Chs |-> <<>>] /\ hist = <<>> /\ pc = [c \in Chs |-> 0] /\ reports = 0 /\ lost = 0

Ts(c) == <<c, 3000 * sent[c]>>
Packet(c, pl, m) ==
  LET k == seq[c]  pad == k % 3 = 1  x == k % 4 = 2 IN
  R!Pack([p |-> pad, x |-> x, m |-> m, cc |-> k % 2, pt |-> 96, sn |-> (65535 + k) % 65536, ts |-> Ts(c), ssrc |-> <<c, 7>>,
          csrc |-> [i \in 1..(k % 2) |-> <<1, 2>>], xh |-> 48862, xl |-> 1, xd |-> <<1, 2, 3, 4>>, pl |-> pl], IF pad THEN <<0, 2>> ELSE <<>>)
\* the packet reaches the wire, or is lost
Emits(c, pl, m, drop) ==
  /\ seq' = [seq EXCEPT ![c] = @ + 1]
  /\ IF drop THEN wire' = wire /\ hist' = hist /\ lost' = lost + 1
     ELSE wire' = Send(wire, c, Packet(c, pl, m)) /\ hist' = Append(hist, [ch |-> c, b |-> Packet(c, pl, m)]) /\ lost' = lost
Drops == IF lost < MaxLost THEN {FALSE, TRUE} ELSE {FALSE}
Left(c) == Len(Of2(c)) - sent[c]
Next1(c) == Of2(c)[sent[c] + 1]
Take2(c, n) == SubSeq(Of2(c), sent[c] + 1, sent[c] + n)

Single(c) == /\ Left(c) > 0 /\ part[c] = 0
             /\ \E d \in Drops : /\ Emits(c, Next1(c), TRUE, d)
                                 /\ due' = IF d THEN due ELSE [due EXCEPT ![c] = Append(@, Next1(c))]
             /\ sent' = [sent EXCEPT ![c] = @ + 1]
             /\ UNCHANGED <<pc, part, gap, out, reports>>
RECURSIVE Body(_)
Body(us) == IF us = <<>> THEN <<>> ELSE <<0, Len(Head(us))>> \o Head(us) \o Body(Tail(us))
Aggregate(c) == /\ Left(c) > 1 /\ part[c] = 0
                /\ \E n \in 2..Left(c), d \in Drops :
                     /\ Emits(c, <<120>> \o Body(Take2(c, n)), TRUE, d)
                     /\ due' = IF d THEN due ELSE [due EXCEPT ![c] = @ \o Take2(c, n)]
                     /\ sent' = [sent EXCEPT ![c] = @ + n]
                /\ UNCHANGED <<pc, part, gap, out, reports>>
\* the next k octets of the unit as a fragment; part counts from 1 (the header)
Fragment(c) ==
  /\ Left(c) > 0 /\ Len(Next1(c)) > 2
  /\ LET u == Next1(c)  p == part[c] IN
     \E k \in 1..(Len(u) - 1), d \in Drops :
       LET from == IF p = 0 THEN 1 ELSE p  to == from + k  end == to = Len(u)  start == p = 0  g == gap[c] \/ d IN
       /\ to <= Len(u) /\ (start => ~end) /\ (end \/ pc[c] < MaxPieces - 1)
       /\ pc' = [pc EXCEPT ![c] = IF end THEN 0 ELSE @ + 1]
       /\ Emits(c, <<((u[1] \div 32) % 4) * 32 + 28, (IF start THEN 128 ELSE 0) + (IF end THEN 64 ELSE 0) + (u[1] % 32)>> \o SubSeq(u, from + 1, to), end, d)
       /\ IF end THEN /\ part' = [part EXCEPT ![c] = 0] /\ sent' = [sent EXCEPT ![c] = @ + 1] /\ gap' = [gap EXCEPT ![c] = FALSE]
                      /\ due' = IF g THEN due ELSE [due EXCEPT ![c] = Append(@, u)]
          ELSE /\ part' = [part EXCEPT ![c] = to] /\ gap' = [gap EXCEPT ![c] = g] /\ UNCHANGED <<sent, due>>
  /\ UNCHANGED <<out, reports>>
Report(c) == /\ reports < MaxReports /\ reports' = reports + 1
             /\ LET b == <<128, 200, 0, 6>> \o [i \in 1..24 |-> i] IN
                wire' = Send(wire, c + 1, b) /\ hist' = Append(hist, [ch |-> c + 1, b |-> b])
             /\ UNCHANGED <<pc, sent, part, gap, seq, out, due, lost>>
\* delivery is immediate or late, but in order
Deliver == \E c \in DOMAIN wire : /\ wire[c].q # <<>>
            /\ \E t \in {Take(wire, c)} :
                 /\ wire' = t.m
                 /\ out' = IF c % 2 = 1 THEN out ELSE [out EXCEPT ![c] = @ \o t.r.o.units]
            /\ UNCHANGED <<pc, sent, part, gap, seq, due, hist, reports, lost>>
Pending == \E c \in DOMAIN wire : wire[c].q # <<>>
\* packets under way need not wait for each other across channels; to keep the
\* graph small each is delivered before the next is sent
Next == IF Pending THEN Deliver ELSE \E c \in Chs : Single(c) \/ Aggregate(c) \/ Fragment(c) \/ Report(c)
Spec == Init /\ [][Next]_vars

Raw(us) == [i \in DOMAIN us |-> [h |-> us[i][1], d |-> AB!Unescape(SubSeq(us[i], 2, Len(us[i])))]]
Plain(us) == [i \in DOMAIN us |-> [h |-> us[i].h, d |-> us[i].d]]
\* a fragment lost in the middle cannot be noticed without sequence numbers
Silent == \E c \in Chs : gap[c]
EndToEnd == MaxLost = 0 /\ ~Pending => \A c \in Chs : Plain(out[c]) = Raw(due[c])
Numbered == MaxLost = 0 => \A c \in Chs : \A i \in DOMAIN out[c] : out[c][i].don = i - 1
Over == ~Pending /\ \A c \in Chs : Left(c) = 0
Emit == Over /\ Len(hist) \in Want => PrintT("CASE@" \o ToJson(hist))
=============================================================================
