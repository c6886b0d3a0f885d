------------------------------- MODULE UdpGen -------------------------------
(* Histories of setting up, sending, holding back, stopping.               *)
EXTENDS Udp, Json, TLC
CONSTANTS N, MaxSends, Sizes, MaxHolds, WithRefusals, MaxStops,
          Early     \* listeners may be stopped before Ready
VARIABLES u, todo, held, script, cnt, log
vars == <<u, todo, held, script, cnt, log>>
Streams == 0..N - 1
Init == u = Begin(N) /\ todo = Streams /\ held = FALSE /\ script = <<>> /\ cnt = [sends |-> 0, holds |-> 0, stops |-> 0] /\ log = <<>>
Act(a) == script' = Append(script, a)
\* the server answers the SETUP of stream i, in any order
Answer(i, ok) == /\ i \in todo /\ todo' = todo \ {i}
                 /\ \E v \in {IF ok THEN Set(u, i) ELSE u} : u' = IF todo' = {} THEN Readied(v) ELSE v
                 /\ Act([a |-> "setup", i |-> i, ok |-> ok]) /\ UNCHANGED <<held, cnt, log>>
Send(i, w, z) == /\ todo = {} /\ cnt.sends < MaxSends
                 /\ u' = Arrive(u, i, w, <<i, w, cnt.sends>>) /\ cnt' = [cnt EXCEPT !.sends = @ + 1]
                 /\ Act([a |-> "send", i |-> i, w |-> w, size |-> z]) /\ UNCHANGED <<todo, held, log>>
Hold == /\ todo = {} /\ ~held /\ cnt.holds < MaxHolds /\ held' = TRUE /\ cnt' = [cnt EXCEPT !.holds = @ + 1]
        /\ Act([a |-> "hold"]) /\ UNCHANGED <<u, todo, log>>
RECURSIVE Drain(_, _)
Drain(v, g) == LET S == {ch \in DOMAIN v.q : v.q[ch] # <<>>} IN
  IF S = {} THEN [u |-> v, log |-> g] ELSE LET ch == CHOOSE ch \in S : TRUE IN Drain(Deliver(v, ch), Append(g, <<ch, Head(v.q[ch])>>))
\* the user reads everything there is
ReadAll == /\ todo = {} /\ \E d \in {Drain(u, log)} : u' = d.u /\ log' = d.log
           /\ (held \/ log' # log)
           /\ held' = FALSE /\ Act([a |-> "release"]) /\ UNCHANGED <<todo, cnt>>
StopIt == /\ (todo = {} \/ Early) /\ cnt.stops < MaxStops /\ u' = Stop(u) /\ cnt' = [cnt EXCEPT !.stops = @ + 1]
          /\ Act([a |-> "stop"]) /\ UNCHANGED <<todo, held, log>>
Next == \/ \E i \in Streams : Answer(i, TRUE) \/ (WithRefusals /\ Answer(i, FALSE))
        \/ \E i \in Streams, w \in {0, 1}, z \in Sizes : Send(i, w, z)
        \/ Hold \/ StopIt \/ ReadAll
Spec == Init /\ [][Next]_vars
\* delivered: only what was sent, once, in the order of its port, on its channel
Right == \A k \in DOMAIN log : log[k][1] = Chan(log[k][2][1], log[k][2][2]) /\ log[k][2][1] \in u.set
InOrder == \A j, k \in DOMAIN log : j < k /\ log[j][1] = log[k][1] => log[j][2][3] < log[k][2][3]
Complete == \A ch \in DOMAIN u.q : u.q[ch] # <<>> => (\E i \in u.set, w \in {0, 1} : ch = Chan(i, w))
Emit == (cnt.sends = MaxSends /\ todo = {}) => PrintT("CASE@" \o ToJson([script |-> script]))
=============================================================================
