------------------------------ MODULE NalTrace ------------------------------
(* Recorded payload streams against Nal.  A rejected line names the        *)
(* property it speaks about: content (N01), fragment (N02), number (N03).  *)
EXTENDS Nal, TraceBase
VARIABLE l
E == Trace[l]
O == Outcome(E.buf, E.ts)
Same(us, vs, strip(_)) == Len(us) = Len(vs) /\ \A i \in DOMAIN us : strip(us[i]) = strip(vs[i])
Content(u) == <<u.h, u.d>>
\* what the parts of the header read as
Read(u) == u.idc = (u.h \div 32) % 4 /\ u.type = u.h % 32
ContentOK(o) == ~o.wf \/ (~E.err /\ Same(E.units, o.units, Content) /\ \A i \in DOMAIN E.units : Read(E.units[i]))
NumberOK(o) == ~o.wf \/ E.err \/ Len(E.units) # Len(o.units)
            \/ \A i \in DOMAIN o.units :
                 /\ E.units[i].ts = o.units[i].ts
                 /\ o.units[i].don = Unknown \/ E.units[i].don = o.units[i].don
\* the bound variable makes TLC work the outcome out once
Judge(os) == \E o \in os : /\ Push(o)
                           /\ ContentOK(o) \/ Reject(l, o.class)
                           /\ NumberOK(o) \/ Reject(l, "number")
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ CASE E.op = "new" -> don' = 0 /\ ser' = NoSeries
             [] E.op = "dondiff" -> /\ UNCHANGED nvars
                                    /\ IsDonDiff(E.a, E.b, E.out) \/ Reject(l, "number")
             [] OTHER -> Judge({O})
TSpec == l = 1 /\ NInit /\ [][Step]_<<l, don, ser>>
=============================================================================
