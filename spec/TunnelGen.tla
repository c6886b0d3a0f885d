------------------------------ MODULE TunnelGen -----------------------------
(* All answers to the GET of up to N lines.                                *)
EXTENDS Tunnel, Json, TLC
CONSTANT N
StatusLines == <<
  <<72, 84, 84, 80, 47, 49, 46, 48, 32, 50, 48, 48, 32, 79, 75, 13, 10>>,
  <<72, 84, 84, 80, 47, 49, 46, 49, 32, 50, 48, 48, 13, 10>>,
  <<72, 84, 84, 80, 47, 49, 46, 48, 32, 52, 48, 52, 32, 78, 111, 116, 32, 70, 111, 117, 110, 100, 13, 10>>,
  <<72, 84, 84, 80, 47, 49, 46, 49, 32, 53, 48, 51, 32, 66, 117, 115, 121, 58, 32, 50, 48, 48, 32, 79, 75, 13, 10>>,
  <<72, 84, 84, 80, 47, 49, 46, 48, 32, 50, 48, 32, 79, 75, 13, 10>>,
  <<72, 84, 84, 80, 47, 49, 46, 48, 32, 50, 48, 48, 48, 32, 79, 75, 13, 10>>,
  <<72, 84, 84, 80, 47, 49, 46, 48, 32, 79, 75, 32, 50, 48, 48, 13, 10>>,
  <<82, 84, 83, 80, 47, 49, 46, 48, 32, 50, 48, 48, 32, 79, 75, 13, 10>>,
  <<73, 67, 89, 32, 50, 48, 48, 32, 79, 75, 13, 10>>,
  <<103, 97, 114, 98, 97, 103, 101, 13, 10>>,
  <<72, 84, 84, 80, 47, 49, 46, 48, 50, 48, 48, 32, 79, 75, 13, 10>>,
  <<72, 84, 84, 80, 47, 50, 46, 48, 32, 50, 48, 48, 32, 79, 75, 13, 10>>,
  <<72, 84, 84, 80, 47, 49, 46, 49, 32, 51, 48, 50, 32, 70, 111, 117, 110, 100, 13, 10>>,
  <<72, 84, 84, 80, 47, 49, 46, 48, 32, 52, 48, 49, 32, 85, 110, 97, 117, 116, 104, 111, 114, 105, 122, 101, 100, 13, 10>>,
  <<13, 10>>,
  <<72, 84, 84, 80, 47, 49, 46, 49, 32, 49, 48, 48, 32, 67, 111, 110, 116, 105, 110, 117, 101, 13, 10>>>>
HeaderLines == <<
  <<67, 111, 110, 116, 101, 110, 116, 45, 84, 121, 112, 101, 58, 32, 97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 120, 45, 114, 116, 115, 112, 45, 116, 117, 110, 110, 101, 108, 108, 101, 100, 13, 10>>,
  <<88, 58, 13, 10>>,
  <<65, 58, 32, 98, 58, 32, 99, 13, 10>>,
  <<110, 111, 32, 99, 111, 108, 111, 110, 32, 104, 101, 114, 101, 13, 10>>,
  <<58, 32, 120, 13, 10>>,
  <<32, 102, 111, 108, 100, 101, 100, 13, 10>>,
  <<67, 97, 99, 104, 101, 45, 67, 111, 110, 116, 114, 111, 108, 32, 58, 32, 110, 111, 45, 115, 116, 111, 114, 101, 13, 10>>,
  <<67, 111, 110, 110, 101, 99, 116, 105, 111, 110, 58, 32, 99, 108, 111, 115, 101, 13, 10>>>>
VARIABLES b, n, done
vars == <<b, n, done>>
Init == b = <<>> /\ n = 0 /\ done = FALSE
Put(p, d) == b' = b \o p /\ n' = n + 1 /\ done' = d
Next == ~done /\ n <= N
        /\ \/ n = 0 /\ \E i \in DOMAIN StatusLines : Put(StatusLines[i], FALSE)
           \/ n > 0 /\ n < N /\ \E i \in DOMAIN HeaderLines : Put(HeaderLines[i], FALSE)
           \/ n > 0 /\ Put(<<13, 10>>, TRUE)
Spec == Init /\ [][Next]_vars
A == Answer(b)
Total == A.class \in {"ok", "bad", "cut", "any"}
\* nothing that arrives later changes a verdict
Stable == [][Answer(b).class \in {"ok", "bad"} => Answer(b').class = Answer(b).class]_vars
OkIsWhole == A.class = "ok" => done
Emit == n > 0 => PrintT("CASE@" \o ToJson([b |-> b, class |-> A.class, at |-> A.at]))
=============================================================================
