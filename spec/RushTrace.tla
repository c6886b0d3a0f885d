------------------------------ MODULE RushTrace -----------------------------
(* Recorded rushes of commands.                                            *)
EXTENDS Rush, TraceBase
VARIABLES l, q, who
vars == <<l, q, who>>
E == Trace[l]
Table(x) == LET S == {e \in {E.md5[i] : i \in DOMAIN E.md5} : e.x = x} IN IF S = {} THEN "?" ELSE (CHOOSE e \in S : TRUE).h
Challenge(j) == [scheme |-> j.scheme, dirs |-> j.dirs, qop |-> j.qop, qops |-> {j.qops[i] : i \in DOMAIN j.qops}]
Why == CASE E.e = "req" -> Wrong(q, E, who.user, who.pass)
         [] E.e = "ret" -> IF E.err THEN "error" ELSE ""
         [] E.e = "rep" -> IF q.reps # <<>> /\ Head(q.reps) = E.stage THEN "" ELSE "report"
         [] E.e = "dat" -> IF q.dats # <<>> /\ Head(q.dats) = <<E.ch, E.sum>> THEN "" ELSE "media"
         [] E.e = "sync" -> IF Idle(q) THEN "" ELSE "missing"
         [] E.e \in {"stuck", "junk", "closed"} -> E.e
         [] OTHER -> ""
Init == l = 1 /\ q = Begin("", "", NoCh, <<>>) /\ who = [user |-> "", pass |-> ""]
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ who' = IF E.e = "begin" THEN [user |-> E.user, pass |-> E.pass] ELSE who
        /\ q' = CASE E.e = "begin" -> [Begin(E.base, E.sess, Challenge(E.chal), E.used) EXCEPT !.counts = [n \in {E.counts[i].n : i \in DOMAIN E.counts} |->
                                                      (CHOOSE x \in {E.counts[i] : i \in DOMAIN E.counts} : x.n = n).c]]
                  [] E.e = "cmd" -> Call(q, E.verb)
                  [] E.e = "req" -> Read(q, E)
                  [] E.e = "snd" /\ E.k = "resp" -> IF E.cseq \in DOMAIN q.out THEN Answer(q, E, Challenge(E.ch)) ELSE q
                  [] E.e = "snd" /\ E.k = "frame" -> Frame(q, E)
                  [] E.e = "rep" -> IF q.reps # <<>> THEN [q EXCEPT !.reps = Tail(@)] ELSE q
                  [] E.e = "dat" -> IF q.dats # <<>> THEN [q EXCEPT !.dats = Tail(@)] ELSE q
                  [] E.e = "sync" -> Rested(q)
                  [] OTHER -> q
        /\ LET w == Why IN IF w = "" THEN TRUE ELSE Reject(l, w)
Spec == Init /\ [][Next]_vars
=============================================================================
