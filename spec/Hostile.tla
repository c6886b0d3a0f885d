------------------------------ MODULE Hostile ------------------------------
(* X01.  A parser under attack.  Damage is a series of edits to a          *)
(* well-formed input; a parser is a machine that ends every input, however *)
(* damaged, with a value or a refusal, at a cost bounded by what it was    *)
(* given, and that treats the well-formed input after it as a fresh        *)
(* instance would.                                                         *)
EXTENDS Naturals, Sequences

\* ---- damage --------------------------------------------------------------
\* Positions are quarters of the input so far.
At(b, q) == (q * Len(b)) \div 4
Edits(Vals, Runs) ==
       [op : {"cut"}, q : 0..3]
  \cup [op : {"set"}, q : 0..3, v : Vals]
  \cup [op : {"ins"}, q : 0..4, v : Vals, n : Runs]
  \cup [op : {"del"}, q : 0..3, n : {1, 2}]
  \cup [op : {"dup"}, q : 0..3]
  \cup {[op |-> "flip"]}                      \* the first half last
Rep(v, n) == [i \in 1..n |-> v]
Apply(b, e) ==
  LET k == IF e.op = "flip" THEN Len(b) \div 2 ELSE At(b, e.q) IN
  CASE e.op = "cut"  -> SubSeq(b, 1, k)
    [] e.op = "set"  -> IF k < Len(b) THEN [b EXCEPT ![k + 1] = e.v] ELSE b
    [] e.op = "ins"  -> SubSeq(b, 1, k) \o Rep(e.v, e.n) \o SubSeq(b, k + 1, Len(b))
    [] e.op = "del"  -> SubSeq(b, 1, k) \o SubSeq(b, k + 1 + e.n, Len(b))
    [] e.op = "dup"  -> b \o SubSeq(b, k + 1, Len(b))
    [] OTHER         -> SubSeq(b, k + 1, Len(b)) \o SubSeq(b, 1, k)

\* ---- the parser's side ---------------------------------------------------
Ends == {"value", "refused"}
Cost(n) == 16777216 + (IF n > 300000 THEN 1800000000 ELSE 6000 * n)
\* One input of n octets that ended in this way and took so much memory.
Fine(f) == f.out \in Ends /\ f.alloc <= Cost(f.n)
\* The well-formed inputs afterwards.
Recovered(fresh, after) == after = fresh

\* A connection under attack: whatever was received, once the peer has gone
\* the session says so exactly once, and no call of the user is left hanging.
SessionFine(x) == x.hangs = 0 /\ (x.ended => x.dones = 1)
=============================================================================
