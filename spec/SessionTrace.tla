---------------------------- MODULE SessionTrace ----------------------------
(* Recorded sessions.  Line t holds one session: open (URL, credentials)   *)
(* and ev, what was seen in order:                                         *)
(*   cmd/ret   a user goroutine g calls and returns from a command         *)
(*   snd       the server sends an item                                    *)
(*   req       the server has read a request                               *)
(*   rep, dat  the user has read a report, a packet                        *)
(*   sync      nothing is on its way any more                              *)
(* When the client takes an item from the connection is not seen: TLC      *)
(* looks for moments that explain the rest.                                *)
(* Aspects selects what is judged beside the course of the session.        *)
EXTENDS Session, TraceBase
CONSTANTS Aspects
VARIABLES t, l, c, in, usr, pend, used, counts, kept
vars == <<t, l, c, in, usr, pend, used, counts, kept>>
Sess == Trace[t]
Ev == Trace[t].ev[l]
End_ == Len(Trace[t].ev) + 1
Table(x) == LET S == {e \in {Ev.md5[i] : i \in DOMAIN Ev.md5} : e.x = x} IN IF S = {} THEN "?" ELSE (CHOOSE e \in S : TRUE).h
Challenge(j) == [scheme |-> j.scheme, dirs |-> j.dirs, qop |-> j.qop, qops |-> {j.qops[i] : i \in DOMAIN j.qops}]
Item(e) == IF e.k = "resp" THEN [e EXCEPT !.ch = Challenge(e.ch)] ELSE e

\* a description is asked for in the form the client reads
AcceptOK(e) == \E i \in DOMAIN e.acc : e.acc[i] \in {"application/sdp", "application/*", "*/*"}

Count(e) == <<Get(e.auth, "nonce"), Get(e.auth, "nc")>>
AuthOK(p, e) ==
  CASE p.chal.scheme = "none" -> e.auth.scheme = "none"
    [] p.chal.scheme = "basic" -> e.auth.scheme = "basic" /\ e.auth.text = Sess.user \o ":" \o Sess.pass
    [] p.chal.scheme = "digest" ->
         /\ e.auth.scheme = "digest" /\ Get(e.auth, "uri") \in {p.uri, c.base}
         /\ \E k \in {e.nc} : Verify(p.chal, e.auth, Sess.user, Sess.pass, [verb |-> e.verb, uri |-> Get(e.auth, "uri"), body |-> ""], k, e.first)
         /\ (Offers(p.chal) # {} => Count(e) \notin counts)
Match(p, e) ==
  /\ e.verb = p.verb /\ e.uri = p.uri
  /\ IF p.cseq = 0 THEN e.cseq \notin used ELSE e.cseq = p.cseq /\ e.hdrs = p.hdrs
  /\ ("sess" \in Aspects => SessionOK(p, e.sess))
  /\ ("auth" \in Aspects => AuthOK(p, e))
  /\ ("accept" \in Aspects /\ e.verb = "DESCRIBE" => AcceptOK(e))

Init == /\ t \in DOMAIN Trace /\ l = 1 /\ in = <<>> /\ usr = [x \in {} |-> 0] /\ pend = [g \in {} |-> ""] /\ used = {} /\ counts = {} /\ kept = 0
        /\ c = Opened(Trace[t].base, Trace[t].creds)
Quiet == in = <<>> /\ c.proc = <<>> /\ c.reps = <<>> /\ c.dats = <<>> /\ (c.ended \/ (DOMAIN usr = {} /\ \A g \in DOMAIN pend : pend[g].st = "read"))

\* A command is written at some moment of the call: what it may carry is
\* what was in force at one of those moments.
Now(d) == [sess |-> d.sess, chal |-> d.chal]
Command(verb, w) == [Req(c, verb, c.base, "user") EXCEPT !.sess = w.sess, !.chal = w.chal]
Plus(b, x) == IF x \in DOMAIN b THEN [b EXCEPT ![x] = @ + 1] ELSE (x :> 1) @@ b
Minus(b, x) == IF b[x] > 1 THEN [b EXCEPT ![x] = @ - 1] ELSE [y \in DOMAIN b \ {x} |-> b[y]]

\* ---- what is not seen
Take == /\ in # <<>>
        /\ \E d \in {Handle(c, Head(in))} :
             /\ c' = d
             /\ pend' = [g \in DOMAIN pend |-> IF pend[g].st = "called" THEN [pend[g] EXCEPT !.w = @ \cup {Now(d)}] ELSE pend[g]]
        /\ in' = Tail(in) /\ UNCHANGED <<t, l, usr, used, counts, kept>>
\* a keep-alive over UDP (S10); Sess.alive is how many were read
Keep == /\ kept < Sess.alive /\ CanKeep(c)
        /\ c' = KeepAlive(c) /\ kept' = kept + 1
        /\ UNCHANGED <<t, l, in, usr, pend, used, counts>>
\* ---- what is seen
Seen(e) ==
  CASE e.e = "cmd" -> /\ pend' = (e.g :> [verb |-> e.verb, w |-> {Now(c)}, st |-> "called"]) @@ pend
                      /\ UNCHANGED <<c, in, usr, used, counts>>
    [] e.e = "ret" -> /\ (e.err => c.ended \/ \E i \in DOMAIN in : in[i].k \in {"eof", "raw"})
                      /\ usr' = IF pend[e.g].st = "called" THEN Plus(usr, [verb |-> pend[e.g].verb, w |-> pend[e.g].w]) ELSE usr
                      /\ pend' = [g \in DOMAIN pend \ {e.g} |-> pend[g]]
                      /\ UNCHANGED <<c, in, used, counts>>
    [] e.e = "snd" -> in' = Append(in, Item(e)) /\ UNCHANGED <<c, usr, pend, used, counts>>
    [] e.e = "req" -> /\ \/ /\ c.proc # <<>> /\ Match(Head(c.proc), e) /\ usr' = usr /\ pend' = pend
                            /\ c' = Read([c EXCEPT !.proc = Tail(@)], Head(c.proc), e.cseq, e.hdrs)
                         \/ \E x \in {y \in DOMAIN usr : y.verb = e.verb} :
                              /\ \E w \in x.w : Match(Command(x.verb, w), e)
                              /\ usr' = Minus(usr, x) /\ pend' = pend
                              /\ c' = Read(c, Command(x.verb, Now(c)), e.cseq, e.hdrs)
                         \/ \E g \in {h \in DOMAIN pend : pend[h].st = "called" /\ pend[h].verb = e.verb} :
                              /\ \E w \in pend[g].w : Match(Command(e.verb, w), e)
                              /\ usr' = usr /\ pend' = [pend EXCEPT ![g] = [@ EXCEPT !.st = "read", !.w = {}]]
                              /\ c' = Read(c, Command(e.verb, Now(c)), e.cseq, e.hdrs)
                      /\ used' = used \cup {e.cseq}
                      /\ counts' = IF e.auth.scheme = "digest" THEN counts \cup {Count(e)} ELSE counts
                      /\ UNCHANGED in
    [] e.e = "rep" -> /\ c.reps # <<>> /\ Head(c.reps) = e.stage /\ c' = [c EXCEPT !.reps = Tail(@)]
                      /\ UNCHANGED <<in, usr, pend, used, counts>>
    [] e.e = "dat" -> /\ c.dats # <<>> /\ Head(c.dats).ch = e.ch /\ Head(c.dats).sum = e.sum /\ c' = [c EXCEPT !.dats = Tail(@)]
                      /\ UNCHANGED <<in, usr, pend, used, counts>>
    [] e.e = "sync" -> Quiet /\ UNCHANGED <<c, in, usr, pend, used, counts>>
    [] e.e = "closed" -> (c.ended \/ c.done) /\ UNCHANGED <<c, in, usr, pend, used, counts>>
    [] OTHER -> FALSE /\ UNCHANGED <<c, in, usr, pend, used, counts>>
See == l < End_ /\ Seen(Ev) /\ l' = l + 1 /\ UNCHANGED <<t, kept>>
Next == Take \/ Keep \/ See
TSpec == Init /\ [][Next]_vars

\* how far each session could be explained
ASSUME \A i \in DOMAIN Trace : TLCSet(i, 0)
Progress == IF l > TLCGet(t) THEN TLCSet(t, l) ELSE TRUE
Verdict == \A i \in DOMAIN Trace :
   IF TLCGet(i) = Len(Trace[i].ev) + 1 THEN TRUE ELSE PrintT("REJECT@" \o ToString(i) \o "@" \o ToString(TLCGet(i)))
=============================================================================
