--------------------------------- MODULE Udp --------------------------------
(* S11.  Media over UDP.  u:                                               *)
(*   n        number of streams; streams are numbered from 0               *)
(*   set      streams that the server has agreed to send                   *)
(*   ready    Ready has been reported                                      *)
(*   on       streams whose ports are listened to                          *)
(*   q        per channel, the datagrams on their way to the user          *)
(* Port w (0 or 1) of stream i feeds channel 2i + w.                       *)
EXTENDS Integers, Sequences
Chan(i, w) == 2 * i + w
Begin(n) == [n |-> n, set |-> {}, ready |-> FALSE, on |-> {}, q |-> [ch \in 0..2 * n - 1 |-> <<>>]]
Set(u, i) == [u EXCEPT !.set = @ \cup {i}, !.on = @ \cup {i}]
Readied(u) == [u EXCEPT !.ready = TRUE]
\* a datagram d arrives at the port; nobody hears it unless the port is open
Arrive(u, i, w, d) == IF u.ready /\ i \in u.on THEN [u EXCEPT !.q[Chan(i, w)] = Append(@, d)] ELSE u
CanDeliver(u, ch, d) == ch \in DOMAIN u.q /\ u.q[ch] # <<>> /\ Head(u.q[ch]) = d
Deliver(u, ch) == [u EXCEPT !.q[ch] = Tail(@)]
\* what is on its way when the listeners stop may still be delivered, or not
\* (streams set up later are listened to)
Stop(u) == [u EXCEPT !.on = {}]
Idle(u) == \A i \in u.on, w \in {0, 1} : u.q[Chan(i, w)] = <<>>
=============================================================================
