------------------------------- MODULE Session ------------------------------
(* S01-S05, S08, S12.  The client side of one RTSP connection as its user  *)
(* and the server see it.                                                  *)
(*                                                                         *)
(* A client c:                                                             *)
(*   base, creds       the URL without credentials; are there credentials  *)
(*   walk              "options", "describe", "setup" or "ready": how far  *)
(*                     opening the session has got                         *)
(*   todo              SETUP requests not answered yet                     *)
(*   out               outstanding requests (what the server has read and  *)
(*                     the client waits for)                               *)
(*   proc              requests sent because of a response, in order, that *)
(*                     the server has not read yet                         *)
(*   reps, dats        reports and media on their way to the user          *)
(*   sess, chal        the session identifier and the challenge in force   *)
(*   done, ended       Done has been reported; nothing is processed more   *)
(*                                                                         *)
(* What the server sends:  [k |-> "frame", ch, sum], [k |-> "raw"] (not    *)
(* RTSP), [k |-> "eof"], or a response [k |-> "resp", cseq, code, sess,    *)
(* ch, feeds]: ch is a challenge (Digest.tla) or NoCh, feeds the control   *)
(* attributes [abs, v] of a description.                                   *)
EXTENDS Digest, FiniteSets

NoCh == [scheme |-> "none", dirs |-> <<>>, qop |-> "", qops |-> {}]
Ready == 1
Stage(v) == CASE v = "PLAY" -> 2 [] v = "PAUSE" -> 3 [] v = "TEARDOWN" -> 4

Req(c, verb, uri, role) ==
  [cseq |-> 0, verb |-> verb, uri |-> uri, hdrs |-> "", role |-> role, retried |-> FALSE, sess |-> c.sess, chal |-> c.chal]
Opened(base, creds) ==
  LET c == [base |-> base, creds |-> creds, walk |-> "options", todo |-> 0, out |-> {}, proc |-> <<>>, reps |-> <<>>, dats |-> <<>>,
            sess |-> "", chal |-> NoCh, done |-> FALSE, ended |-> FALSE] IN
  [c EXCEPT !.proc = <<Req(c, "OPTIONS", base, "walk")>>]

\* a control attribute that is no URI of its own names something below the base
Folder(b) == IF SubSeq(b, Len(b), Len(b)) = "/" THEN b ELSE b \o "/"
ControlUri(c, f) == IF f.abs THEN f.v ELSE Folder(c.base) \o f.v
Send(c, rs) == [c EXCEPT !.proc = @ \o rs]
Report(c, s) == [c EXCEPT !.reps = Append(@, s), !.done = @ \/ s = 4]
End(c) == [(IF c.done THEN c ELSE Report(c, 4)) EXCEPT !.ended = TRUE]

\* the answer `it` to request r, no longer outstanding
Answered(c, r, it) ==
  CASE r.verb = "OPTIONS" /\ c.walk = "options" -> Send([c EXCEPT !.walk = "describe"], <<Req(c, "DESCRIBE", c.base, "walk")>>)
    [] r.verb = "DESCRIBE" /\ c.walk = "describe" /\ it.code = 200 /\ it.feeds # <<>> ->
         Send([c EXCEPT !.walk = "setup", !.todo = Len(it.feeds)], [i \in DOMAIN it.feeds |-> Req(c, "SETUP", ControlUri(c, it.feeds[i]), "setup")])
    [] r.verb = "SETUP" -> IF c.todo = 1 THEN Report([c EXCEPT !.walk = "ready", !.todo = 0], Ready) ELSE [c EXCEPT !.todo = @ - 1]
    [] r.verb \in {"PLAY", "PAUSE", "TEARDOWN"} /\ it.code = 200 -> Report(c, Stage(r.verb))
    [] OTHER -> c
Challenged(c, r, it) ==
  IF r.retried \/ ~c.creds \/ ~Usable(it.ch) THEN End(c)
  ELSE Send([c EXCEPT !.chal = it.ch], <<[r EXCEPT !.retried = TRUE, !.sess = c.sess, !.chal = it.ch]>>)
Response(c, it) ==
  LET S == {r \in c.out : r.cseq = it.cseq} IN
  IF S = {} \/ it.code < 200 THEN c      \* nothing to answer, or provisional
  ELSE LET r == CHOOSE r \in S : TRUE
           d == [c EXCEPT !.out = @ \ S] IN
       IF it.code = 401 THEN Challenged(d, r, it)
       ELSE Answered(IF it.sess = "" THEN d ELSE [d EXCEPT !.sess = it.sess], r, it)
Handle(c, it) ==
  CASE c.ended -> c
    [] it.k = "frame" -> [c EXCEPT !.dats = Append(@, [ch |-> it.ch, sum |-> it.sum])]
    [] it.k \in {"raw", "eof"} -> End(c)
    [] it.k = "resp" -> Response(c, it)

\* keep-alives over UDP: OPTIONS requests of the client's own accord
CanKeep(c) == c.walk = "ready" /\ ~c.done /\ ~c.ended
KeepAlive(c) == Send(c, <<Req(c, "OPTIONS", c.base, "alive")>>)

\* the server has read request p under number n with headers h
Read(c, p, n, h) == [c EXCEPT !.out = @ \cup {[p EXCEPT !.cseq = n, !.hdrs = h, !.sess = "", !.chal = NoCh]}]

\* session identifier a request may carry
SessionOK(p, id) == IF p.verb \in {"DESCRIBE", "PLAY", "PAUSE", "TEARDOWN"} \/ p.role = "alive" THEN id = p.sess ELSE id \in {"", p.sess}
=============================================================================
