------------------------------- MODULE Digest -------------------------------
(* S06.  Basic and Digest authentication (RFC 2617) as a server that       *)
(* issues a challenge and verifies what comes back.  H is the hash: an     *)
(* injective symbol when the protocol itself is checked, a table of MD5    *)
(* values when values produced by the code are verified.                   *)
(* A challenge is [scheme, dirs]: dirs is a sequence of [n, v] with the    *)
(* directive name in lower case and v its text.                            *)
EXTENDS Integers, Sequences, TLC
CONSTANTS H(_)

Lower(s) == CASE s \in {"MD5", "md5", "Md5"} -> "md5" [] s \in {"MD5-sess", "md5-sess", "MD5-SESS"} -> "md5-sess" [] OTHER -> s
Has(ch, n) == \E i \in DOMAIN ch.dirs : ch.dirs[i].n = n
Val(ch, n, default) == IF Has(ch, n) THEN (CHOOSE d \in {ch.dirs[i] : i \in DOMAIN ch.dirs} : d.n = n).v ELSE default
Alg(ch) == Lower(Val(ch, "algorithm", "md5"))
\* the quality options offered that a client may choose from
Offers(ch) == CASE ch.qop = "" -> {} [] OTHER -> ch.qops \cap {"auth", "auth-int"}
Usable(ch) == \/ ch.scheme = "basic"
              \/ ch.scheme = "digest" /\ Alg(ch) \in {"md5", "md5-sess"}

C2(a, b) == a \o ":" \o b
C3(a, b, c) == a \o ":" \o b \o ":" \o c
HexDigit == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
RECURSIVE Hex(_, _)
Hex(v, n) == IF n = 0 THEN "" ELSE Hex(v \div 16, n - 1) \o HexDigit[(v % 16) + 1]

\* A1 for MD5-sess is bound to a client nonce
A1(ch, user, pass, cn) == LET base == C3(user, Val(ch, "realm", ""), pass) IN
  IF Alg(ch) = "md5-sess" THEN C3(H(base), Val(ch, "nonce", ""), cn) ELSE base
A2(qop, verb, uri, body) == IF qop = "auth-int" THEN C3(verb, uri, H(body)) ELSE C2(verb, uri)
DigestOf(ch, user, pass, cn, r, nc, cnonce, qop) ==
  IF qop = "" THEN H(C3(H(A1(ch, user, pass, cn)), Val(ch, "nonce", ""), H(A2("", r.verb, r.uri, r.body))))
  ELSE H(C3(H(A1(ch, user, pass, cn)), Val(ch, "nonce", ""), nc) \o ":" \o C3(cnonce, qop, H(A2(qop, r.verb, r.uri, r.body))))

(* What the server accepts as the count-th value for challenge ch and       *)
(* request r.  a: [scheme, dirs] as a challenge; first: the client nonce    *)
(* of the first value, to which an MD5-sess session may stay bound.         *)
Get(a, n) == Val(a, n, "")
Common(ch, a, user, uri) ==
  /\ a.scheme = "digest"
  /\ Get(a, "username") = user /\ Get(a, "realm") = Val(ch, "realm", "") /\ Get(a, "nonce") = Val(ch, "nonce", "")
  /\ Get(a, "uri") = uri
  /\ Get(a, "opaque") = Val(ch, "opaque", "")
  /\ IF Has(a, "algorithm") THEN Lower(Get(a, "algorithm")) = Alg(ch) ELSE Alg(ch) = "md5"
Verify(ch, a, user, pass, r, count, first) ==
  /\ Common(ch, a, user, r.uri)
  /\ IF Offers(ch) = {}
     THEN /\ ~Has(a, "qop") /\ ~Has(a, "nc") /\ ~Has(a, "cnonce")
          /\ Get(a, "response") = DigestOf(ch, user, pass, "", r, "", "", "")
     ELSE /\ Get(a, "qop") \in Offers(ch) /\ Get(a, "cnonce") # "" /\ Get(a, "nc") = Hex(count, 8)
          /\ \E cn \in {first, Get(a, "cnonce")} :
               Get(a, "response") = DigestOf(ch, user, pass, cn, r, Get(a, "nc"), Get(a, "cnonce"), Get(a, "qop"))
=============================================================================
