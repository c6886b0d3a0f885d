------------------------------- MODULE Request ------------------------------
(* S09.  What a request must look like on the wire, byte by byte.          *)
EXTENDS Integers, Sequences, FiniteSets
CR == 13  LF == 10  SP == 32  Colon == 58
Digits == 48..57
Upper == 65..90
TokenBytes == (33..126) \ {34, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63, 64, 91, 92, 93, 123, 125}
LowerB(x) == IF x \in Upper THEN x + 32 ELSE x
Slice(b, i, j) == SubSeq(b, i, j)
Lc(s) == [i \in DOMAIN s |-> LowerB(s[i])]
Contains(s, p) == Len(p) > 0 /\ \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p
Prefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
All(s, S) == \A i \in DOMAIN s : s[i] \in S
RECURSIVE First(_, _), Last(_, _)
First(s, i) == IF i <= Len(s) /\ s[i] \in {32, 9} THEN First(s, i + 1) ELSE i
Last(s, i) == IF i >= 1 /\ s[i] \in {32, 9} THEN Last(s, i - 1) ELSE i
Trim(s) == SubSeq(s, First(s, 1), Last(s, Len(s)))

CSEQ == <<99, 115, 101, 113>>
CLEN == <<99, 111, 110, 116, 101, 110, 116, 45, 108, 101, 110, 103, 116, 104>>
AUTHZ == <<97, 117, 116, 104, 111, 114, 105, 122, 97, 116, 105, 111, 110>>
VERSION == <<82, 84, 83, 80, 47, 49, 46, 48>>
Verbs == {"OPTIONS", "DESCRIBE", "SETUP", "PLAY", "PAUSE", "TEARDOWN"}

\* line ends: CR LF and nothing else
Ends(b) == {i \in 1..(Len(b) - 1) : b[i] = CR /\ b[i + 1] = LF}
LineEndsOK(b) == LET P == Ends(b) IN \A i \in DOMAIN b : (b[i] = CR => i \in P) /\ (b[i] = LF => i - 1 \in P)
\* one empty line, at the very end
Terminated(b) == LET P == Ends(b)  n == Len(b) IN n >= 4 /\ n - 1 \in P /\ n - 3 \in P /\ \A i \in P : i + 2 \in P => i = n - 3
RECURSIVE SplitAt(_, _, _)
SplitAt(b, from, P) == IF P = {} THEN <<>>
  ELSE LET m == CHOOSE i \in P : \A j \in P : i <= j IN <<SubSeq(b, from, m - 1)>> \o SplitAt(b, m + 2, P \ {m})
Lines(b) == SplitAt(b, 1, Ends(b) \ {Len(b) - 1})
ColonAt(s) == LET S == {i \in DOMAIN s : s[i] = Colon} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Name(s) == Lc(SubSeq(s, 1, ColonAt(s) - 1))
Value(s) == Trim(SubSeq(s, ColonAt(s) + 1, Len(s)))
HeaderOK(s) == ColonAt(s) > 1 /\ All(SubSeq(s, 1, ColonAt(s) - 1), TokenBytes) /\ All(SubSeq(s, ColonAt(s) + 1, Len(s)), {9} \cup 32..126 \cup 128..255)
Blanks(s) == {i \in DOMAIN s : s[i] = SP}
RequestLineOK(s, authority) ==
  /\ Cardinality(Blanks(s)) = 2
  /\ LET i == CHOOSE x \in Blanks(s) : \A y \in Blanks(s) : x <= y
         j == CHOOSE x \in Blanks(s) : \A y \in Blanks(s) : x >= y
         uri == SubSeq(s, i + 1, j - 1) IN
     /\ i > 1 /\ All(SubSeq(s, 1, i - 1), Upper \cup {95})
     /\ SubSeq(s, j + 1, Len(s)) = VERSION
     /\ Prefix(uri, authority) /\ All(uri, 33..126)
     /\ Len(uri) > Len(authority) => uri[Len(authority) + 1] \in {47, 63}

(* b: the request; authority: "rtsp://host:port"; secrets: texts that must *)
(* not occur.  The names of the clauses that do not hold:                  *)
Faults(b, authority, secrets) ==
  IF ~LineEndsOK(b) THEN {"line ends"} ELSE IF ~Terminated(b) THEN {"end of message"}
  ELSE LET L == Lines(b)
           H == 2..Len(L)
           named(n) == {i \in H : ColonAt(L[i]) > 0 /\ Name(L[i]) = n} IN
       (IF RequestLineOK(L[1], authority) THEN {} ELSE {"request line"})
       \cup (IF \A i \in H : HeaderOK(L[i]) THEN {} ELSE {"header line"})
       \cup (IF Cardinality(named(CSEQ)) = 1 /\ \A i \in named(CSEQ) : Value(L[i]) # <<>> /\ All(Value(L[i]), Digits) THEN {} ELSE {"CSeq"})
       \cup (IF \A i \in named(CLEN) : Value(L[i]) # <<>> /\ All(Value(L[i]), {48}) THEN {} ELSE {"body"})
       \cup (IF \A i \in DOMAIN L : i \in named(AUTHZ) \/ \A k \in DOMAIN secrets : ~Contains(Lc(L[i]), Lc(secrets[k])) THEN {} ELSE {"credentials"})
=============================================================================
