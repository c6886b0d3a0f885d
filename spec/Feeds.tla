-------------------------------- MODULE Feeds -------------------------------
(* F01.  The video streams of a description as a session sets them up:     *)
(* what the description says of each (Sdp), the transport it asks for and  *)
(* is given (Transport), and the parameter sets it has (ParamSets).        *)
(* A feed is [e, t, set, sps, pps]: the entry, the transport (or "open"    *)
(* after a refused answer), whether it is set up, and the sets stored, as  *)
(* functions from ids.  loose: a set of unknown meaning came along.        *)
EXTENDS Integers, Sequences, TLC
S == INSTANCE Sdp
T == INSTANCE Transport
P == INSTANCE ParamSets WITH sps <- <<>>, pps <- <<>>
AB == INSTANCE AnnexB

Feed(e, proto, i) == [e |-> e, t |-> T!New(proto, i), open |-> FALSE, set |-> FALSE, sps |-> <<>>, pps |-> <<>>, loose |-> FALSE]
Describe(proto, lines) == LET es == S!Entries(lines) IN [i \in DOMAIN es |-> Feed(es[i], proto, i - 1)]

\* one parameter set of the description
SpsView(f) == [profile |-> f.profile, level |-> f.level, width |-> P!WidthOf(f), height |-> P!HeightOf(f), maxref |-> f.maxref]
PpsView(f) == [sps |-> f.sps, l0 |-> f.l0, l1 |-> f.l1, qp |-> f.qp]
Store(fd, b) ==
  IF b = <<>> \/ b[1] % 32 \notin {7, 8} THEN fd
  ELSE LET u == AB!Unescape(SubSeq(b, 2, Len(b)))  N(x) == -1 IN
       IF b[1] % 32 = 7
       THEN LET r == P!DecodeSps(u) IN
            IF r.how = "ok" THEN [fd EXCEPT !.sps = P!Put(@, r.f.id, SpsView(r.f))]
            ELSE IF r.how = "odd" THEN [fd EXCEPT !.loose = TRUE] ELSE fd
       ELSE LET r == P!DecodePps(u, N) IN
            IF r.how = "ok" THEN [fd EXCEPT !.pps = P!Put(@, r.f.id, PpsView(r.f))]
            ELSE IF r.how = "odd" THEN [fd EXCEPT !.loose = TRUE] ELSE fd
RECURSIVE StoreAll(_, _)
StoreAll(fd, bs) == IF bs = <<>> THEN fd ELSE StoreAll(Store(fd, Head(bs)), Tail(bs))

\* answers that contradict the transport, or themselves, are left open
Contradicts(t, h) == (h.lower = "" /\ t.tcp) \/ (LET u == T!Parse(t, h) IN u.tcp /\ u.multicast)
\* the answer h to the SETUP of one feed
Accept(fd, h) == IF T!Bad(h) THEN [fd EXCEPT !.open = TRUE]
                 ELSE StoreAll([fd EXCEPT !.t = T!Parse(@, h), !.open = @ \/ Contradicts(fd.t, h), !.set = TRUE], fd.e.sprops)
Setup(fs, i, h) == [fs EXCEPT ![i] = Accept(@, h)]
=============================================================================
