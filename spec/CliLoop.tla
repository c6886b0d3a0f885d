------------------------------- MODULE CliLoop ------------------------------
(* The command: a loop over reports, packets and one timer of W, against   *)
(* every camera that answers each request some time later, sends media of  *)
(* any kind at any point, challenges, and may end the connection.  What it *)
(* does satisfies the observer, and it always comes to exit.               *)
EXTENDS Cli, Json
CONSTANTS W, Delays, Media, Feeds, MayClose, MaxChal
VARIABLES now, o, app, cam, script, ok, chal
vars == <<now, o, app, cam, script, ok, chal>>
\* app: stage last reported and the timer (None: stopped)
\* cam: the request being answered ("" for none), when, and SETUPs outstanding
Idle == [v |-> "", due |-> None]
Init == /\ now = 0 /\ o = Requested(Begin, "OPTIONS", 0) /\ app = [stage |-> 0, timer |-> None, run |-> TRUE]
        /\ cam \in {[v |-> "OPTIONS", due |-> d] : d \in {0}} /\ script = <<>> /\ ok = TRUE /\ chal = 0
Send(v, d, m) == /\ ok' = (ok /\ RequestOK(o, v, now)) /\ o' = Requested(o, v, now) /\ cam' = [v |-> v, due |-> now + d]
                 /\ script' = Append(script, [v |-> v, delay |-> d, media |-> m, n |-> 0])
\* the camera's answer is due
Answer == /\ cam.v # "" /\ now = cam.due /\ app.run
          /\ CASE cam.v = "OPTIONS" -> /\ Send("DESCRIBE", 0, "none") /\ UNCHANGED <<app, chal>>
               [] cam.v = "DESCRIBE" ->      \* all streams are set up in one go
                    /\ \E m \in Media : \E p \in {Answered(o, "DESCRIBE", TRUE, Feeds, now)} :
                         /\ ok' = (ok /\ RequestOK(p, "SETUP", now)) /\ o' = p /\ cam' = [v |-> "SETUP", due |-> now]
                         /\ script' = Append(script, [v |-> "SETUP", delay |-> 0, media |-> m, n |-> Feeds])
                    /\ UNCHANGED <<app, chal>>
               [] cam.v = "SETUP" -> IF o.left > 0 THEN o' = Answered(o, "SETUP", TRUE, 0, now) /\ UNCHANGED <<app, cam, script, ok, chal>>
                                     ELSE /\ \E d \in Delays, m \in Media : Send("PLAY", d, m)
                                          /\ app' = [app EXCEPT !.stage = 1] /\ UNCHANGED chal
               [] OTHER -> /\ o' = Answered(o, cam.v, TRUE, 0, now) /\ cam' = Idle
                           /\ app' = [app EXCEPT !.stage = CASE cam.v = "PLAY" -> 2 [] cam.v = "PAUSE" -> 3 [] OTHER -> 4, !.timer = now + W]
                           /\ UNCHANGED <<script, ok, chal>>
          /\ UNCHANGED now
Challenge == /\ cam.v # "" /\ now = cam.due /\ app.run /\ chal < MaxChal /\ (IF script = <<>> THEN TRUE ELSE script[Len(script)].v # "chal") /\ cam.v # "SETUP"
             /\ chal' = chal + 1 /\ script' = Append(script, [v |-> "chal", delay |-> 0, media |-> "none", n |-> 0])
             /\ UNCHANGED <<now, o, app, cam, ok>>
Close == /\ MayClose /\ app.run /\ o.st \notin {"done", "exited"} /\ script # <<>> /\ (cam.v = "" \/ now = cam.due)
         /\ o' = Closed(o, now) /\ cam' = Idle /\ app' = [app EXCEPT !.stage = 4, !.timer = now + W]
         /\ script' = Append(script, [v |-> "close", delay |-> 0, media |-> "none", n |-> 0])
         /\ UNCHANGED <<now, ok, chal>>
Timer == /\ app.run /\ app.timer = now
         /\ IF app.stage = 4 THEN /\ ok' = (ok /\ ExitOK(o, 0, now)) /\ o' = Exited(o, now) /\ app' = [app EXCEPT !.run = FALSE] /\ UNCHANGED <<cam, script>>
            ELSE /\ \E d \in Delays, m \in Media : Send(IF app.stage = 2 THEN "PAUSE" ELSE "TEARDOWN", d, m)
                 /\ app' = [app EXCEPT !.timer = None]
         /\ UNCHANGED <<now, chal>>
Tick == /\ app.run /\ (cam.v = "" \/ now < cam.due) /\ (app.timer = None \/ now < app.timer)
        /\ now' = now + 1 /\ UNCHANGED <<o, app, cam, script, ok, chal>>
Next == Answer \/ Challenge \/ Close \/ Timer \/ Tick
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Obeyed == ok
Exits == <>(o.st = "exited")
Emit == o.st = "exited" => PrintT("CASE@" \o ToJson([script |-> script]))
=============================================================================
