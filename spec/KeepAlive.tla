------------------------------ MODULE KeepAlive -----------------------------
(* S10.  Keep-alives as an observer sees them.  Times are integers; P is   *)
(* the least time between keep-alives, R the time the client waits for     *)
(* input before it looks at the clock again.                               *)
(* o: stage, since (when the session became ready), last (keep-alive),     *)
(* early (a keep-alive the server read before Ready was seen).             *)
EXTENDS Integers, Sequences, TLC
CONSTANTS P, R,
          Jitter,   \* how much closer together two keep-alives may be seen
          Slack,    \* how much later
          Skew      \* between what the server and the user see
None == -1
Begin(on) == [on |-> on, stage |-> 0, since |-> 0, last |-> None, early |-> None, ended |-> None]
Alive(o) == o.stage \in 1..3
Latest(o) == (IF o.last > o.since THEN o.last ELSE o.since) + P + R + Slack
\* no keep-alive is overdue at time t
InTime(o, t) == (o.on /\ Alive(o)) => t <= Latest(o)

\* each of these is TRUE iff the event may happen then
StageOK(o, s, t) == InTime(o, t) /\ (s = 1 => o.early = None \/ t - o.early <= Skew)
\* Done is final, although answers to earlier commands may still be reported
Staged(o, s, t) == IF o.stage = 4 THEN o ELSE [o EXCEPT !.stage = s, !.since = IF s = 1 THEN t ELSE @, !.last = IF s = 1 /\ o.early # None THEN o.early ELSE @,
                             !.early = None, !.ended = IF s = 4 THEN t ELSE @]
BeatOK(o, t) == /\ o.on
                /\ \/ o.stage = 0 /\ o.early = None
                   \/ Alive(o) /\ InTime(o, t) /\ (o.last = None \/ t - o.last >= P - Jitter)
                   \/ o.stage = 4 /\ t - o.ended <= Skew
Beat(o, t) == IF o.stage = 0 THEN [o EXCEPT !.early = t] ELSE [o EXCEPT !.last = t]
EndOK(o, t) == InTime(o, t) /\ o.early = None
=============================================================================
