------------------------------ MODULE HeaderGen -----------------------------
(* All histories of N operations on a header map over a few names.         *)
EXTENDS Header, Json, TLC
CONSTANT N
Names == {<<88, 45, 65>>, <<120, 45, 97>>, <<83, 101>>, <<83, 69>>}
Vals == {"1", "2 b"}
VARIABLES ops, h
vars == <<ops, h>>
Ops == {[op |-> "set", n |-> n, v |-> v] : n \in Names, v \in Vals} \cup {[op |-> o, n |-> n, v |-> ""] : o \in {"del", "get"}, n \in Names}
Init == ops = <<>> /\ h = <<>>
Next == Len(ops) < N /\ \E o \in Ops : ops' = Append(ops, o) /\ h' = Do(h, o)
Spec == Init /\ [][Next]_vars
OneEach == \A i, j \in DOMAIN h : i # j => h[i].n # h[j].n
\* the last Set since the last Del decides
LastWins == \A n \in Names : LET S == {i \in DOMAIN ops : FoldName(ops[i].n) = FoldName(n) /\ ops[i].op # "get"} IN
   Value(h, n) = IF S = {} THEN "" ELSE LET k == CHOOSE i \in S : \A j \in S : i >= j IN IF ops[k].op = "set" THEN ops[k].v ELSE ""
Emit == Len(ops) = N => PrintT("CASE@" \o ToJson([ops |-> ops]))
=============================================================================
