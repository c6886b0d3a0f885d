------------------------------- MODULE Header -------------------------------
(* M02.  A header map: one value per name, whatever the case of the name.  *)
(* A name is the sequence of its characters' codes.  The map is a sequence *)
(* of [n, v]; an operation is [op |-> "set" | "del" | "get", n, v].        *)
EXTENDS Integers, Sequences
FoldName(s) == [i \in DOMAIN s |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
Without(h, n) == SelectSeq(h, LAMBDA x : x.n # FoldName(n))
Value(h, n) == LET s == SelectSeq(h, LAMBDA x : x.n = FoldName(n)) IN IF s = <<>> THEN "" ELSE s[1].v
Do(h, o) == CASE o.op = "set" -> Append(Without(h, o.n), [n |-> FoldName(o.n), v |-> o.v])
              [] o.op = "del" -> Without(h, o.n)
              [] o.op = "get" -> h
RECURSIVE Answers(_, _, _), After(_, _)
Answers(h, ops, a) == IF ops = <<>> THEN a ELSE Answers(Do(h, Head(ops)), Tail(ops), Append(a, IF Head(ops).op = "get" THEN Value(h, Head(ops).n) ELSE ""))
After(h, ops) == IF ops = <<>> THEN h ELSE After(Do(h, Head(ops)), Tail(ops))
Size(ops) == Len(After(<<>>, ops))
=============================================================================
