----------------------------- MODULE BitsTrace ------------------------------
(* Recorded uses of the bit reader, the Annex B splitter and the emulation *)
(* prevention functions against their specifications.                      *)
EXTENDS BitReader, TraceBase
VARIABLE l
X == INSTANCE AnnexB
E == Trace[l]
IsBits == E.op \notin {"new", "split", "unesc", "esc"}
R == Result(E.op, E.n, buf, pos)
AfterAv == 8 * Len(buf) - E.av       \* position the reader itself reports
Conforms ==
  CASE E.op = "new" -> TRUE
    [] E.op = "split" -> /\ \A i \in DOMAIN E.us : X!IsUnit(E.us[i])
                         /\ E.buf = X!Assemble(E.us, E.zeros, E.trail)
                         /\ X!Scan(E.buf) = E.us
                         /\ E.out = X!Split(E.buf)
    [] E.op = "unesc" -> E.out = X!Unescape(E.buf)
    [] E.op = "esc" -> X!IsEncapsulation(E.out, E.buf)
    [] OTHER -> IF ~Claimed(E.op, buf, pos) THEN TRUE
                ELSE /\ E.err = R.err
                     /\ (~R.err \/ Exact(E.op)) => AfterAv = R.pos
                     /\ ~R.err /\ E.op \notin {"skip", "skipue", "trail"} => E.v = R.v
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF E.op = "new" THEN New(E.buf)
           ELSE IF IsBits THEN pos' = (IF AfterAv \in 0..(8 * Len(buf)) THEN AfterAv ELSE pos) /\ UNCHANGED buf
           ELSE UNCHANGED bvars
        /\ Conforms \/ Reject(l, E.op)
TInit == l = 1 /\ buf = <<>> /\ pos = 0
TSpec == TInit /\ [][Step]_<<l, buf, pos>>
=============================================================================
