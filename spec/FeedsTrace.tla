------------------------------ MODULE FeedsTrace ----------------------------
(* F01.  Each line is one history: the description, then answers with the  *)
(* outcome; after each step all feeds are viewed.                          *)
EXTENDS Feeds, TraceBase, FiniteSets
VARIABLE l
Range(s) == {s[i] : i \in DOMAIN s}
Exact(s, set) == Range(s) = set /\ Len(s) = Cardinality(set)
Of(ps, names) == SelectSeq(ps, LAMBDA p : p.n \in names)
Written(t, v) == LET c == T!Carries(t)  ps == v.params IN
  /\ (v.lower = "TCP") = t.tcp
  /\ \A i \in DOMAIN ps : ps[i].n \in T!Flags \cup T!Pairs \cup {"interleaved"} \cup T!Numbers \cup T!Texts \cup {"destination"}
  /\ Exact([i \in DOMAIN Of(ps, T!Flags) |-> Of(ps, T!Flags)[i].n], c.flags)
  /\ Exact(Of(ps, T!Pairs \cup {"interleaved"}), c.pairs) /\ Exact(Of(ps, T!Numbers), c.nums)
  /\ Exact(Of(ps, T!Texts \cup {"destination"}), c.texts)
Sets(m, got) == /\ DOMAIN m = {got[i].id : i \in DOMAIN got}
                /\ \A i \in DOMAIN got : m[got[i].id] = got[i].f
Why(fd, v) == IF v.e # fd.e THEN "entry"
              ELSE IF v.set # fd.set THEN "set"
              ELSE IF ~fd.open /\ ~Written(fd.t, v) THEN "transport"
              ELSE IF ~fd.loose /\ ~(Sets(fd.sps, v.sps) /\ Sets(fd.pps, v.pps)) THEN "sets" ELSE ""
All(fs, vs) == IF Len(fs) # Len(vs) THEN "number of feeds"
               ELSE LET B == {i \in DOMAIN fs : Why(fs[i], vs[i]) # ""} IN IF B = {} THEN "" ELSE LET i == CHOOSE i \in B : TRUE IN Why(fs[i], vs[i])
RECURSIVE Walk(_, _)
Walk(fs, ans) ==
  IF ans = <<>> THEN ""
  ELSE LET a == Head(ans)  g == Setup(fs, a.i + 1, a.h)  w == All(g, a.views) IN
       IF a.err # T!Bad(a.h) THEN "outcome" ELSE IF w # "" THEN w ELSE Walk(g, Tail(ans))
Fault(e) == \E fs \in {Describe(e.proto, e.lines)} : \E w \in {IF All(fs, e.views) # "" THEN All(fs, e.views) ELSE Walk(fs, e.ans)} :
            IF w = "" THEN TRUE ELSE Reject(l, w)
Next == l <= Len(Trace) /\ Fault(Trace[l]) /\ l' = l + 1
Spec == l = 1 /\ [][Next]_l
=============================================================================
