------------------------------- MODULE Packed -------------------------------
(* M03.  What a request holds and what it says on the wire.  Texts are     *)
(* sequences of octets.  A request r is [verb, uri, cseq, session, auth,   *)
(* hdrs], hdrs a sequence of [n, v] with different names.                  *)
EXTENDS Request
AGENT == <<117, 115, 101, 114, 45, 97, 103, 101, 110, 116>>
SESS == <<115, 101, 115, 115, 105, 111, 110>>
OPTIONS == <<79, 80, 84, 73, 79, 78, 83>>
SETUP == <<83, 69, 84, 85, 80>>
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Decimal(n \div 10), 48 + (n % 10))

\* the header lines that say what r holds, in any order
Said(r) ==
  <<[n |-> CSEQ, v |-> Decimal(r.cseq)]>>
  \o [i \in DOMAIN r.hdrs |-> [n |-> Lc(r.hdrs[i].n), v |-> Trim(r.hdrs[i].v)]]
  \o (IF r.session = <<>> \/ r.verb \in {OPTIONS, SETUP} THEN <<>> ELSE <<[n |-> SESS, v |-> r.session]>>)
  \o (IF r.auth = <<>> THEN <<>> ELSE <<[n |-> AUTHZ, v |-> r.auth]>>)
\* and those that say no more: no body, and who is asking
Quiet(h) == h.n = AGENT \/ (h.n = CLEN /\ h.v = <<48>>)
SetOf(s) == {s[i] : i \in DOMAIN s}

\* what is wrong with b as the message of r, "" if nothing is
Fault(r, b) ==
  IF ~LineEndsOK(b) \/ ~Terminated(b) THEN "form"
  ELSE LET L == Lines(b)
           H == [i \in 1..(Len(L) - 1) |-> [n |-> Name(L[i + 1]), v |-> Value(L[i + 1])]]
           told == SelectSeq(H, LAMBDA h : ~Quiet(h)) IN
       IF L[1] # r.verb \o <<SP>> \o r.uri \o <<SP>> \o VERSION THEN "request line"
       ELSE IF \E i \in 2..Len(L) : ~HeaderOK(L[i]) THEN "header line"
       ELSE IF Len(told) # Len(Said(r)) \/ SetOf(told) # SetOf(Said(r)) THEN "headers"
       ELSE IF \E i, j \in DOMAIN H : i < j /\ H[i].n = H[j].n THEN "header twice"
       ELSE ""
\* a message that says it
RECURSIVE Headers(_)
Headers(hs) == IF hs = <<>> THEN <<>> ELSE Head(hs).n \o <<Colon, SP>> \o Head(hs).v \o <<CR, LF>> \o Headers(Tail(hs))
Message(r) == r.verb \o <<SP>> \o r.uri \o <<SP>> \o VERSION \o <<CR, LF>> \o Headers(Said(r)) \o <<CR, LF>>
=============================================================================
