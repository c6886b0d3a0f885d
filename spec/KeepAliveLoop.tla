---------------------------- MODULE KeepAliveLoop ---------------------------
(* The client's receive loop: it looks at the clock whenever something     *)
(* arrives and R after it last did.  Its keep-alives satisfy the observer, *)
(* for every time at which input arrives and commands are confirmed.       *)
(* Schedules are written out to be played against the real client.         *)
EXTENDS KeepAlive, Json
CONSTANTS H,       \* horizon
          MaxActs, Acts
VARIABLES now, due, o, ok, script
vars == <<now, due, o, ok, script>>
\* the loop looks at the clock
Look(oo, k) == LET b == Alive(oo) /\ (oo.last = None \/ now - oo.last >= P) IN
               /\ o' = IF b THEN Beat(oo, now) ELSE oo
               /\ ok' = (k /\ (b => BeatOK(oo, now)))
               /\ due' = now + R
Init == now = 0 /\ due = R /\ o = Beat(Staged(Begin(TRUE), 1, 0), 0) /\ ok = TRUE /\ script = <<>>
Tick == now < due /\ now < H /\ now' = now + 1 /\ UNCHANGED <<due, o, ok, script>>
Wake == now = due /\ Look(o, ok) /\ UNCHANGED <<now, script>>
\* something arrives, possibly the confirmation of a command
Arrive(a) == /\ now < due /\ now < H /\ Len(script) < MaxActs /\ o.stage # 4
             /\ IF script = <<>> THEN TRUE ELSE script[Len(script)].at < now
             /\ script' = Append(script, [at |-> now, a |-> a]) /\ now' = now
             /\ IF a \in 1..4 THEN Look(Staged(o, a, now), ok /\ StageOK(o, a, now)) ELSE Look(o, ok)
Next == Tick \/ Wake \/ \E a \in Acts : Arrive(a)
Spec == Init /\ [][Next]_vars
Observed == ok /\ InTime(o, now)
\* the beats never stop while the session is alive
Regular == Alive(o) => now - o.last <= P + R
Emit == (now = H /\ due > now) => PrintT("CASE@" \o ToJson([script |-> script]))
=============================================================================
