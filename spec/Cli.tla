--------------------------------- MODULE Cli --------------------------------
(* E01.  The ouro command as the camera sees it.  o:                       *)
(*   st    "open", "play" (PLAY sent), "playing", "pause" (PAUSE sent),    *)
(*         "paused", "teardown", "done", "exited"                          *)
(*   at    when st was entered                                             *)
(*   left  SETUP requests without a final answer; None before DESCRIBE     *)
(* Times are integers.                                                     *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MinWait, MaxWait   \* "some seconds"
None == -1
Begin == [st |-> "open", at |-> 0, left |-> None, walk |-> <<>>]
InTime(o, t) == t - o.at <= MaxWait
\* may the camera read a new request now? (not the repetition after a challenge)
RequestOK(o, v, t) ==
  CASE v = "OPTIONS" -> o.st = "open" /\ o.walk = <<>>
    [] v = "DESCRIBE" -> o.st = "open" /\ o.walk = <<"OPTIONS">>
    [] v = "SETUP" -> o.st = "open" /\ o.left # None
    [] v = "PLAY" -> o.st = "open" /\ o.left = 0 /\ InTime(o, t)
    [] v = "PAUSE" -> o.st = "playing" /\ t - o.at >= MinWait /\ InTime(o, t)
    [] v = "TEARDOWN" -> o.st = "paused" /\ t - o.at >= MinWait /\ InTime(o, t)
    [] OTHER -> FALSE
Enter(o, s, t) == [o EXCEPT !.st = s, !.at = t]
Requested(o, v, t) ==
  CASE v \in {"OPTIONS", "DESCRIBE"} -> [Enter(o, "open", t) EXCEPT !.walk = Append(@, v)]
    [] v = "PLAY" -> Enter(o, "play", t) [] v = "PAUSE" -> Enter(o, "pause", t) [] v = "TEARDOWN" -> Enter(o, "teardown", t)
    [] OTHER -> o
\* the camera gives a final answer to v; n: streams in a description
Answered(o, v, ok, n, t) ==
  CASE v = "DESCRIBE" /\ ok -> [Enter(o, "open", t) EXCEPT !.left = n]
    [] v = "SETUP" -> [Enter(o, "open", t) EXCEPT !.left = @ - 1]
    [] v = "PLAY" /\ ok -> Enter(o, "playing", t) [] v = "PAUSE" /\ ok -> Enter(o, "paused", t) [] v = "TEARDOWN" /\ ok -> Enter(o, "done", t)
    [] OTHER -> o
Closed(o, t) == Enter(o, "done", t)      \* the camera ends the connection
ExitOK(o, code, t) == o.st = "done" /\ code = 0 /\ InTime(o, t)
Exited(o, t) == Enter(o, "exited", t)
=============================================================================
