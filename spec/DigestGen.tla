----------------------------- MODULE DigestGen ------------------------------
(* The protocol: a client that answers challenges as RFC 2617 prescribes,  *)
(* a server that verifies.  Every challenge of a family, every history of  *)
(* up to MaxCalls requests.  Checked: honest values verify, and only for   *)
(* the request, count, password they were made for.                        *)
EXTENDS Digest, Json, FiniteSets
CONSTANTS MaxCalls, Big
Sym(x) == "<" \o x \o ">"
VARIABLES ch, calls, sent       \* challenge, requests so far, values sent
vars == <<ch, calls, sent>>
D(n, v) == [n |-> n, v |-> v]
Opt(n, v) == IF v = "-" THEN <<>> ELSE <<D(n, v)>>
QopText == [q \in {"-", "auth", "auth-int", "auth,auth-int", "auth-int, auth", "token,auth", "AUTH"} |->
  CASE q \in {"-"} -> {} [] q = "auth" -> {"auth"} [] q = "AUTH" -> {"auth"} [] q = "auth-int" -> {"auth-int"}
    [] q \in {"auth,auth-int", "auth-int, auth"} -> {"auth", "auth-int"} [] q = "token,auth" -> {"token", "auth"}]
Make(s, realm, nonce, op, alg, q, extra, late) ==
  LET known == <<D("realm", realm)>> \o (IF s = "basic" THEN <<>> ELSE <<D("nonce", nonce)>> \o Opt("opaque", op) \o Opt("algorithm", alg) \o Opt("qop", q)) IN
  [scheme |-> s, dirs |-> IF late THEN known \o extra ELSE extra \o known, qop |-> IF q = "-" THEN "" ELSE q, qops |-> QopText[q]]
Extras == {<<>>, <<D("charset", "UTF-8")>>, <<D("stale", "true"), D("domain", "rtsp://a/, rtsp://b/?x=1")>>, <<D("x", "nonce=1, qop=auth")>>}
Realms == {"r", "a, b=c", ""} \cup (IF Big THEN {"nonce=\"x"} \ {"nonce=\"x"} ELSE {})
Nonces == {"n1==", "a,b"} \cup (IF Big THEN {"qop=auth", "0"} ELSE {})
Family ==
  {Make(s, r, n, o, a, q, x, l) : s \in {"digest"}, r \in Realms, n \in Nonces, o \in {"-", "o,p=q"} \cup (IF Big THEN {""} ELSE {}),
     a \in {"-", "MD5", "md5", "MD5-sess", "SHA-256"} \cup (IF Big THEN {"md5-sess", "SHA-256-sess"} ELSE {}), q \in DOMAIN QopText, x \in Extras, l \in BOOLEAN}
  \cup {Make(s, r, "-", "-", "-", "-", x, l) : s \in {"basic", "bearer", "ntlm"}, r \in Realms, x \in Extras, l \in BOOLEAN}
\* MD5-sess needs the client nonce that only qop brings
Meaningful(c) == ~(c.scheme = "digest" /\ Alg(c) = "md5-sess" /\ c.qop = "")
Requests == {[verb |-> "OPTIONS", uri |-> "rtsp://h:554/s", body |-> ""], [verb |-> "PLAY", uri |-> "rtsp://h:554/s", body |-> "x: y"]}
User == "u"
Pass == "p w"

\* the honest client: answers with option q and client nonce cn
Cn(k) == "c" \o ToString(k)
Answer(c, r, k, q) ==
  LET cn == Cn(k)
      a1cn == IF Alg(c) = "md5-sess" THEN Cn(1) ELSE cn
      q1 == IF Offers(c) = {} THEN "" ELSE q
      resp == DigestOf(c, User, Pass, a1cn, r, Hex(k, 8), cn, q1) IN
  [scheme |-> "digest", dirs |->
     <<D("username", User), D("realm", Val(c, "realm", "")), D("nonce", Val(c, "nonce", "")), D("uri", r.uri), D("response", resp), D("algorithm", Alg(c))>>
     \o (IF Has(c, "opaque") THEN <<D("opaque", Val(c, "opaque", ""))>> ELSE <<>>)
     \o (IF q1 = "" THEN <<>> ELSE <<D("qop", q), D("nc", Hex(k, 8)), D("cnonce", cn)>>)]
Init == ch \in Family /\ Meaningful(ch) /\ calls = <<>> /\ sent = <<>>
Call == /\ Len(calls) < MaxCalls /\ ch.scheme = "digest" /\ Usable(ch)
        /\ \E r \in Requests : \E q \in (IF Offers(ch) = {} THEN {"auth"} ELSE Offers(ch)) :
             calls' = Append(calls, r) /\ sent' = Append(sent, Answer(ch, r, Len(calls) + 1, q))
        /\ UNCHANGED ch
Spec == Init /\ [][Call]_vars
Accepted(k, r, n, user, pass) == Verify(ch, sent[k], user, pass, r, n, Cn(1))
Honest == \A k \in DOMAIN sent : Accepted(k, calls[k], k, User, Pass)
OnlyThat == \A k \in DOMAIN sent : /\ ~Accepted(k, calls[k], k, User, "other") /\ ~Accepted(k, calls[k], k, "other", Pass)
              /\ (Offers(ch) # {} => \A n \in 1..MaxCalls : n # k => ~Accepted(k, calls[k], n, User, Pass))
              /\ \A r \in Requests : r.verb # calls[k].verb => ~Accepted(k, r, k, User, Pass)
Emit == (Len(calls) = MaxCalls \/ ~(ch.scheme = "digest" /\ Usable(ch))) =>
          PrintT("CASE@" \o ToJson([ch |-> ch, calls |-> calls]))
=============================================================================
