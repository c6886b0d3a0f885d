------------------------------- MODULE Tunnel -------------------------------
(* S13.  RTSP over HTTP: the two HTTP connections and their heads, byte by *)
(* byte, and the answer to the GET.                                        *)
(* t: get, post    cookies of the connections opened so far (<<>>: none)   *)
EXTENDS Message
COOKIE == <<120, 45, 115, 101, 115, 115, 105, 111, 110, 99, 111, 111, 107, 105, 101>>   \* x-sessioncookie
ACCEPTb == <<97, 99, 99, 101, 112, 116>>     \* accept
PRAGMAb == <<112, 114, 97, 103, 109, 97>>
CACHEb == <<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>            \* cache-control
TUNNELLED == <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 120, 45, 114, 116, 115, 112, 45, 116, 117, 110, 110, 101, 108, 108, 101, 100>>   \* application/x-rtsp-tunnelled
HTTP1 == <<72, 84, 84, 80, 47, 49, 46>>
GETsp == <<71, 69, 84, 32>>
POSTsp == <<80, 79, 83, 84, 32>>
Prefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Contains(s, p) == Len(p) > 0 /\ \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p

\* ---- heads of the client's HTTP requests
Blanks(s) == {i \in DOMAIN s : s[i] = 32}
\* every line ends in CR LF and neither occurs elsewhere
LineEnds(b) == \A i \in DOMAIN b : (b[i] = CRb => i < Len(b) /\ b[i + 1] = LFb) /\ (b[i] = LFb => i > 1 /\ b[i - 1] = CRb)

HeadFaults(b, secrets) ==
  LET e == Eol(b, 1)  h == Headers(b, e + 1, <<>>)  line == SubSeq(b, 1, e - 2) IN
  (IF LineEnds(b) /\ e > 2 /\ h.at = Len(b) + 1 THEN {} ELSE {"head"})
  \cup (IF Cardinality(Blanks(line)) = 2 /\ (Prefix(line, GETsp) \/ Prefix(line, POSTsp)) /\ Prefix(SubSeq(line, Len(line) - 7, Len(line)), HTTP1) THEN {} ELSE {"request line"})
  \* a value ends with its line: no other header runs into it
  \cup (IF /\ Get(h.hdrs, ACCEPTb) \in {<<>>, TUNNELLED}
           /\ \A n \in {PRAGMAb, CACHEb} : \A v \in {Get(h.hdrs, n)} : Find(v, 58) = 0 /\ Find(v, 13) = 0
        THEN {} ELSE {"header"})
  \cup (IF \E k \in DOMAIN secrets : Contains(Lc(b), Lc(secrets[k])) THEN {"credentials"} ELSE {})
Cookie(b) == Get(Headers(b, Eol(b, 1) + 1, <<>>).hdrs, COOKIE)

Closed == [get |-> <<>>, post |-> <<>>]
OpenFaults(t, b) ==
  IF Prefix(b, GETsp) THEN (IF t.get # <<>> THEN {"second GET"} ELSE {}) \cup (IF Cookie(b) = <<>> THEN {"cookie"} ELSE {})
  ELSE (IF t.get = <<>> THEN {"POST before GET"} ELSE {}) \cup (IF t.post # <<>> THEN {"second POST"} ELSE {})
       \cup (IF Cookie(b) # t.get THEN {"cookie"} ELSE {})
       \* the body that carries the requests is announced
       \cup (IF IsNumber(Get(Headers(b, Eol(b, 1) + 1, <<>>).hdrs, CLEN)) THEN {} ELSE {"length"})
Opened(t, b) == IF Prefix(b, GETsp) THEN [t EXCEPT !.get = Cookie(b)] ELSE [t EXCEPT !.post = Cookie(b)]

\* ---- the answer to the GET: "ok" (the stream follows), "bad" (opening
\* fails), "cut" (bad if the connection ends there), or "any" where the
\* property does not say
Ver(s) == Prefix(s, HTTP1) /\ Len(s) > 8 /\ s[8] \in {48, 49} /\ s[9] = 32
StatusOf(s) == LET t == Trim(SubSeq(s, 10, Len(s)))  k == Find(t, 32) IN IF k = 0 THEN t ELSE SubSeq(t, 1, k - 1)
ThreeDigits(c) == Len(c) = 3 /\ \A i \in 1..3 : c[i] \in Digit
RECURSIVE Folded(_, _)
Folded(b, i) == LET e == Eol(b, i) IN IF e = 0 THEN FALSE ELSE IF Trim(SubSeq(b, i, e)) = <<>> THEN e - i > 1
                                     ELSE b[i] \in Blank \/ (Find(Trim(SubSeq(b, i, e)), 58) > 1 /\ Folded(b, e + 1))
Answer(b) ==
  LET e == Eol(b, 1) IN
  IF e = 0 THEN [class |-> "cut", at |-> 0]
  ELSE LET s == SubSeq(b, 1, e)  h == Headers(b, e + 1, <<>>) IN
       IF ~Ver(s) THEN [class |-> IF Prefix(s, <<72, 84, 84, 80, 47>>) THEN "any" ELSE "bad", at |-> 0]
       ELSE IF ~ThreeDigits(StatusOf(s)) THEN [class |-> "bad", at |-> 0]
       ELSE IF StatusOf(s)[1] # 50 THEN [class |-> "bad", at |-> 0]
       ELSE IF StatusOf(s) # <<50, 48, 48>> \/ ~LineEnds(SubSeq(b, 1, IF h.at > 0 THEN h.at - 1 ELSE e)) \/ Folded(b, e + 1) THEN [class |-> "any", at |-> 0]
       ELSE IF h.at = 0 THEN [class |-> "cut", at |-> 0]
       ELSE IF h.at = -1 THEN [class |-> "bad", at |-> 0]
       ELSE [class |-> "ok", at |-> h.at]
=============================================================================
