-------------------------------- MODULE Rush --------------------------------
(* S08 at scale.  Many commands in flight on one connection, issued by     *)
(* several goroutines while other sessions of the same program do the      *)
(* same.  What is left of Session.tla when it is not followed which moment *)
(* of a call a request was written in: bookkeeping that every schedule has *)
(* to satisfy.  q:                                                         *)
(*   todo     per verb, calls whose request has not been read yet          *)
(*   used     CSeq values read so far; a set of numbers as intervals       *)
(*   out      requests read and not answered, by CSeq                      *)
(*   refused  requests answered 401 and not read again, by CSeq            *)
(*   chals    the challenges that may be in force                          *)
(*   counts   nonce counts read, by nonce                                  *)
(*   reps, dats  on their way to the user                                  *)
EXTENDS Digest, FiniteSets
NoCh == [scheme |-> "none", dirs |-> <<>>, qop |-> "", qops |-> {}]
\* ---- sets of numbers as intervals
In(iv, x) == \E i \in DOMAIN iv : iv[i][1] <= x /\ x <= iv[i][2]
Without(iv, i) == SubSeq(iv, 1, i - 1) \o SubSeq(iv, i + 1, Len(iv))
Ins(iv, x) ==
  IF In(iv, x) THEN iv
  ELSE LET L == {i \in DOMAIN iv : iv[i][2] = x - 1}  R == {i \in DOMAIN iv : iv[i][1] = x + 1} IN
       IF L # {} /\ R # {} THEN LET i == CHOOSE i \in L : TRUE  j == CHOOSE j \in R : TRUE IN Without([iv EXCEPT ![i][2] = iv[j][2]], j)
       ELSE IF L # {} THEN [iv EXCEPT ![CHOOSE i \in L : TRUE][2] = x]
       ELSE IF R # {} THEN [iv EXCEPT ![CHOOSE i \in R : TRUE][1] = x]
       ELSE Append(iv, <<x, x>>)
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d

Verbs == {"OPTIONS", "DESCRIBE", "PLAY", "PAUSE"}
Begin(base, sess, ch, used) ==
  [base |-> base, sess |-> sess, todo |-> [v \in Verbs |-> 0], used |-> used, out |-> [x \in {} |-> ""], refused |-> [x \in {} |-> ""],
   chals |-> {ch}, last |-> ch, counts |-> [x \in {} |-> <<>>], reps |-> <<>>, dats |-> <<>>]
Call(q, v) == [q EXCEPT !.todo[v] = @ + 1]

NonceOf(a) == Val(a, "nonce", "")
Counted(q, e) == IF e.auth.scheme = "digest" THEN [q EXCEPT !.counts = (NonceOf(e.auth) :> Ins(At(@, NonceOf(e.auth), <<>>), e.nc)) @@ @] ELSE q
\* request e carries an answer to challenge ch
Answers(q, ch, e, user, pass) ==
  CASE ch.scheme = "none" -> e.auth.scheme = "none"
    [] ch.scheme = "basic" -> e.auth.scheme = "basic" /\ e.auth.text = user \o ":" \o pass
    [] OTHER -> /\ e.auth.scheme = "digest" /\ Get(e.auth, "uri") = e.uri
                /\ Verify(ch, e.auth, user, pass, [verb |-> e.verb, uri |-> e.uri, body |-> ""], e.nc, e.first)
                /\ (Offers(ch) # {} => ~In(At(q.counts, NonceOf(e.auth), <<>>), e.nc))
AuthFine(q, e, user, pass) ==
  LET C == IF e.cseq \in DOMAIN q.refused THEN {q.refused[e.cseq].ch}
           ELSE {ch \in q.chals : ch.scheme = e.auth.scheme /\ (ch.scheme # "digest" \/ NonceOf(ch) = NonceOf(e.auth))} IN
  \E ch \in C : Answers(q, ch, e, user, pass)

\* what is wrong with request e, "" if nothing is
Wrong(q, e, user, pass) ==
  IF e.verb \notin Verbs \/ e.uri # q.base THEN "request"
  ELSE IF e.cseq \in DOMAIN q.refused
       THEN IF q.refused[e.cseq].verb # e.verb \/ q.refused[e.cseq].hdrs # e.hdrs THEN "repetition"
            ELSE IF ~AuthFine(q, e, user, pass) THEN "repeated-auth" ELSE ""
  ELSE IF In(q.used, e.cseq) THEN "cseq"
  ELSE IF q.todo[e.verb] = 0 THEN "uncalled"
  ELSE IF e.verb \in {"DESCRIBE", "PLAY", "PAUSE"} /\ e.sess # q.sess THEN "session"
  ELSE IF e.sess \notin {"", q.sess} THEN "session"
  ELSE IF ~AuthFine(q, e, user, pass) THEN "auth"
  ELSE ""
Read(q, e) ==
  LET d == Counted([q EXCEPT !.used = Ins(@, e.cseq), !.out = (e.cseq :> [verb |-> e.verb, hdrs |-> e.hdrs]) @@ @], e) IN
  IF e.cseq \in DOMAIN q.refused THEN [d EXCEPT !.refused = Drop(@, e.cseq)]
  ELSE IF e.verb \in Verbs /\ q.todo[e.verb] > 0 THEN [d EXCEPT !.todo[e.verb] = @ - 1] ELSE d

\* the server answers the outstanding request e.cseq
Answer(q, e, ch) ==
  LET r == q.out[e.cseq]  d == [q EXCEPT !.out = Drop(@, e.cseq)] IN
  IF e.code = 401 THEN [d EXCEPT !.refused = (e.cseq :> [verb |-> r.verb, hdrs |-> r.hdrs, ch |-> ch]) @@ @, !.chals = @ \cup {ch}, !.last = ch]
  ELSE IF e.code = 200 /\ r.verb \in {"PLAY", "PAUSE"} THEN [d EXCEPT !.reps = Append(@, IF r.verb = "PLAY" THEN 2 ELSE 3)]
  ELSE d
Frame(q, e) == [q EXCEPT !.dats = Append(@, <<e.ch, e.sum>>)]
\* nothing is under way
Idle(q) == /\ q.reps = <<>> /\ q.dats = <<>> /\ DOMAIN q.refused = {} /\ \A v \in Verbs : q.todo[v] = 0
Rested(q) == [q EXCEPT !.chals = {q.last}]
=============================================================================
