------------------------------- MODULE Message ------------------------------
(* M01.  The stream of responses, byte by byte.  Parse(b) reads messages   *)
(* until the stream is used up, breaks off or is not RTSP:                 *)
(*   [msgs, end]  end: "clean" (nothing left), "cut" (in mid-message) or   *)
(*                "error" (unsupported version, malformed line)            *)
(* A message is [status, code, hdrs, body]; hdrs is a sequence of [n, v]   *)
(* with the name in lower case and the value without outer blanks.         *)
EXTENDS Integers, Sequences, FiniteSets
CRb == 13  LFb == 10
Blank == {32, 9}
Digit == 48..57
Lc(s) == [i \in DOMAIN s |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
RECURSIVE First(_, _), Last(_, _)
First(s, i) == IF i <= Len(s) /\ s[i] \in (Blank \cup {CRb, LFb}) THEN First(s, i + 1) ELSE i
Last(s, i) == IF i >= 1 /\ s[i] \in (Blank \cup {CRb, LFb}) THEN Last(s, i - 1) ELSE i
Trim(s) == SubSeq(s, First(s, 1), Last(s, Len(s)))
Find(s, x) == LET S == {i \in DOMAIN s : s[i] = x} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
\* position of the line end at or after i, 0 if there is none
RECURSIVE Eol(_, _)
Eol(b, i) == LET w == IF i + 199 < Len(b) THEN i + 199 ELSE Len(b)
                 S == {j \in i..w : b[j] = LFb} IN
             IF S # {} THEN CHOOSE j \in S : \A k \in S : j <= k
             ELSE IF w >= Len(b) THEN 0 ELSE Eol(b, w + 1)
RECURSIVE Number(_)
Number(s) == IF s = <<>> THEN 0 ELSE 10 * Number(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)] - 48
IsNumber(s) == s # <<>> /\ Len(s) <= 9 /\ \A i \in DOMAIN s : s[i] \in Digit

RTSP10 == <<82, 84, 83, 80, 47, 49, 46, 48, 32>>
CSEQ == <<99, 115, 101, 113>>
CLEN == <<99, 111, 110, 116, 101, 110, 116, 45, 108, 101, 110, 103, 116, 104>>

Get(hs, n) == LET S == {i \in DOMAIN hs : hs[i].n = n} IN IF S = {} THEN <<>> ELSE hs[CHOOSE i \in S : \A j \in S : i >= j].v

\* status line s (with its line end)
StatusOK(s) == /\ Len(s) > 9 /\ SubSeq(s, 1, 9) = RTSP10
               /\ LET t == Trim(SubSeq(s, 10, Len(s)))  k == Find(t, 32)
                      c == IF k = 0 THEN t ELSE SubSeq(t, 1, k - 1) IN
                  Len(c) = 3 /\ \A i \in 1..3 : c[i] \in Digit
Status(s) == Trim(SubSeq(s, 10, Len(s)))
Code(s) == Number(SubSeq(Status(s), 1, 3))

\* header lines from position i: [hdrs, at] with at the first position
\* after the empty line, 0 if the stream breaks off, -1 if a line is malformed
RECURSIVE Headers(_, _, _)
Headers(b, i, hs) ==
  LET e == Eol(b, i) IN
  IF e = 0 THEN [hdrs |-> hs, at |-> 0]
  ELSE LET line == SubSeq(b, i, e)  t == Trim(line) IN
       IF t = <<>> THEN [hdrs |-> hs, at |-> e + 1]
       ELSE IF line[1] \in Blank /\ hs # <<>>     \* continues the value before
            THEN Headers(b, e + 1, [hs EXCEPT ![Len(hs)].v = Trim(@ \o <<32>> \o t)])
       ELSE LET k == Find(t, 58) IN
            IF k <= 1 THEN [hdrs |-> hs, at |-> -1]     \* no colon, no name
            ELSE Headers(b, e + 1, Append(hs, [n |-> Lc(Trim(SubSeq(t, 1, k - 1))), v |-> Trim(SubSeq(t, k + 1, Len(t)))]))

\* one message at position i: [m, at], at as above
One(b, i) ==
  LET e == Eol(b, i) IN
  IF e = 0 THEN [at |-> 0]
  ELSE IF ~StatusOK(SubSeq(b, i, e)) THEN [at |-> -1]
  ELSE LET s == SubSeq(b, i, e)  h == Headers(b, e + 1, <<>>) IN
       IF h.at <= 0 THEN [at |-> h.at]
       ELSE LET c == Get(h.hdrs, CLEN)  n == IF IsNumber(c) THEN Number(c) ELSE 0 IN
            IF h.at + n - 1 > Len(b) THEN [at |-> 0]
            ELSE [at |-> h.at + n, m |-> [status |-> Status(s), code |-> Code(s), hdrs |-> h.hdrs, body |-> SubSeq(b, h.at, h.at + n - 1)]]
RECURSIVE From(_, _, _)
From(b, i, ms) == IF i > Len(b) THEN [msgs |-> ms, end |-> "clean"]
                  ELSE LET o == One(b, i) IN
                       IF o.at = 0 THEN [msgs |-> ms, end |-> "cut"]
                       ELSE IF o.at = -1 THEN [msgs |-> ms, end |-> "error"]
                       ELSE From(b, o.at, Append(ms, o.m))
Parse(b) == From(b, 1, <<>>)
=============================================================================
