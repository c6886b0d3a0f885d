------------------------------- MODULE Framing ------------------------------
(* S07.  The receiver of one connection on which frames and responses are  *)
(* mixed.  The stream arrives in segments; the receiver takes what is      *)
(* there, and a read may time out wherever it has to wait.  Whatever the   *)
(* segments and timeouts, what has been delivered is what has arrived in   *)
(* full.  Symbols: a frame is $ c l Ln and n times p, a response is        *)
(* s . Bn . . and n times b ("." ends a line).                             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxItems, MaxCuts
Kinds == {"F0", "F1", "F3", "R0", "R3"}
Rep(x, n) == [i \in 1..n |-> x]
Enc(k) == CASE k = "F0" -> <<"$", "c", "l", "L0">> [] k = "F1" -> <<"$", "c", "l", "L1", "p">> [] k = "F3" -> <<"$", "c", "l", "L3", "p", "p", "p">>
            [] k = "R0" -> <<"s", ".", "B0", ".", ".">> [] k = "R3" -> <<"s", ".", "B3", ".", ".", "b", "b", "b">>
Len_(y) == CASE y \in {"L0", "B0"} -> 0 [] y = "L1" -> 1 [] OTHER -> 3
RECURSIVE Stream(_)
Stream(ks) == IF ks = <<>> THEN <<>> ELSE Enc(Head(ks)) \o Stream(Tail(ks))

\* receiver r: mode, n (how much is missing), line (has the current line any
\* text), buf (bytes that have arrived and are not consumed), out
Start == [mode |-> "idle", n |-> 0, line |-> FALSE, buf |-> <<>>, out |-> <<>>]
Name(f, n) == f \o ToString(n)
RECURSIVE Run(_)
Run(r) ==   \* as far as possible
  CASE r.mode = "idle" /\ r.buf = <<>> -> r
    [] r.mode = "idle" /\ r.buf # <<>> /\ Head(r.buf) = "$" ->
         IF Len(r.buf) < 4 THEN r      \* the header is taken whole
         ELSE Run([r EXCEPT !.mode = "payload", !.n = Len_(r.buf[4]), !.line = r.n > 0, !.buf = SubSeq(@, 5, Len(@)), !.out = Append(@, [k |-> "F", need |-> Len_(r.buf[4]), got |-> 0])])
    [] r.mode = "idle" /\ r.buf # <<>> /\ Head(r.buf) # "$" -> Run([r EXCEPT !.mode = "head", !.n = 0, !.line = FALSE, !.out = Append(@, [k |-> "R", need |-> 0, got |-> 0])])
    [] r.mode = "payload" -> LET i == Len(r.out) IN
         IF r.out[i].got = r.out[i].need THEN Run([r EXCEPT !.mode = "idle"])
         ELSE IF r.buf = <<>> THEN r ELSE Run([r EXCEPT !.buf = Tail(@), !.out[i].got = @ + 1])
    [] r.mode = "head" ->
         IF r.buf = <<>> THEN r
         ELSE LET y == Head(r.buf)  i == Len(r.out) IN
              IF y = "." THEN Run([r EXCEPT !.buf = Tail(@), !.mode = IF r.line THEN "head" ELSE "payload", !.line = FALSE])
              ELSE Run([r EXCEPT !.buf = Tail(@), !.line = TRUE, !.out[i].need = IF y \in {"B0", "B3"} THEN Len_(y) ELSE @])
Delivered(r) == IF r.mode = "idle" THEN r.out ELSE IF r.out[Len(r.out)].got < r.out[Len(r.out)].need \/ r.mode = "head" THEN SubSeq(r.out, 1, Len(r.out) - 1) ELSE r.out

VARIABLES ks, sent, rec, cuts
vars == <<ks, sent, rec, cuts>>
Init == /\ ks \in UNION {[1..n -> Kinds] : n \in 1..MaxItems}
        /\ sent = 0 /\ rec = Start /\ cuts = <<>>
S == Stream(ks)
\* the next segment up to position p, then a pause long enough to time out or none
Arrive(p, pause) ==
  /\ p > sent /\ p <= Len(S)
  /\ p < Len(S) => Len(cuts) < MaxCuts
  /\ p = Len(S) => ~pause
  /\ sent' = p /\ rec' = Run([rec EXCEPT !.buf = @ \o SubSeq(S, sent + 1, p)])
  /\ cuts' = IF p < Len(S) THEN Append(cuts, [at |-> p, pause |-> pause]) ELSE cuts
  /\ UNCHANGED ks
Next == \E p \in 1..Len(S), pause \in BOOLEAN : Arrive(p, pause)
Spec == Init /\ [][Next]_vars

\* the items that lie within the first n symbols
RECURSIVE Within(_, _)
Within(k, n) == IF k = <<>> \/ Len(Enc(Head(k))) > n THEN <<>> ELSE <<Head(k)>> \o Within(Tail(k), n - Len(Enc(Head(k))))
Complete == LET D == Delivered(rec) IN [i \in DOMAIN D |-> Name(D[i].k, D[i].need)] = Within(ks, sent)
Emit == sent = Len(S) => PrintT("CASE@" \o ToJson([items |-> ks, cuts |-> cuts]))
=============================================================================
