---------------------------- MODULE DigestTrace -----------------------------
(* E: the challenge E.ch was read (E.err: refused) and answered, for user   *)
(* E.user, password E.pass, for the requests E.calls, with the values       *)
(* E.vals ([scheme, dirs]; for Basic [scheme, text]).  E.md5 lists MD5      *)
(* values ([x, h]); what the verification hashes must be among them.        *)
EXTENDS Digest, TraceBase
VARIABLE l
E == Trace[l]
Table(x) == LET S == {e \in {E.md5[i] : i \in DOMAIN E.md5} : e.x = x} IN IF S = {} THEN "?" ELSE (CHOOSE e \in S : TRUE).h
Ch == [scheme |-> E.ch.scheme, dirs |-> E.ch.dirs, qop |-> E.ch.qop, qops |-> {E.ch.qops[i] : i \in DOMAIN E.ch.qops}]
Verified(k) == Verify(Ch, E.vals[k], E.user, E.pass, E.calls[k], k, Get(E.vals[1], "cnonce"))
OK == IF ~Usable(Ch) THEN E.err
      ELSE /\ ~E.err /\ Len(E.vals) = Len(E.calls)
           /\ IF Ch.scheme = "basic" THEN \A k \in DOMAIN E.vals : E.vals[k] = [scheme |-> "basic", text |-> E.user \o ":" \o E.pass]
              ELSE \A k \in DOMAIN E.vals : Verified(k)
Why == IF ~Usable(Ch) THEN "accepted" ELSE IF E.err THEN "refused" ELSE "value"
Step == l <= Len(Trace) /\ l' = l + 1 /\ (OK \/ Reject(l, Why))
TSpec == l = 1 /\ [][Step]_l
=============================================================================
