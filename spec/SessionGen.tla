----------------------------- MODULE SessionGen -----------------------------
(* The session in lockstep: every action of the user or the server is      *)
(* followed by all its consequences.  Behaviours are written out as        *)
(* scripts for the real client; the invariants say what S01-S05 and S12    *)
(* promise.                                                                *)
EXTENDS Session, Json
CONSTANTS Verbs,      \* commands the user may give once Ready
          Codes,      \* status codes the server may answer with
          Ids,        \* session identifiers it may assign ("" for none)
          Chs,        \* names of challenges it may answer with
          Strays,     \* unmatched responses it may send
          Ends,       \* ways it may end
          Early,      \* commands the user may give before that, too
          Feeds, Creds,
          MaxCmds, MaxUn, MaxStrays, MaxChs, MaxIds, MaxFails,
          Deep        \* TRUE: cover the opening walk; FALSE: start when Ready
VARIABLES c, un, n, script, cnt, hist
vars == <<c, un, n, script, cnt, hist>>
Sym(x) == "<" \o x \o ">"
Dig(nonce, q) == [scheme |-> "digest", dirs |-> <<[n |-> "realm", v |-> "r"], [n |-> "nonce", v |-> nonce]>>, qop |-> q, qops |-> IF q = "" THEN {} ELSE {q}]
ChOf(k) == CASE k = "basic" -> [scheme |-> "basic", dirs |-> <<[n |-> "realm", v |-> "r"]>>, qop |-> "", qops |-> {}]
             [] k = "d1" -> Dig("n1", "auth") [] k = "d2" -> Dig("n2", "auth") [] k = "d3" -> Dig("n3", "")
             [] k = "d4" -> Dig("n4", "auth") [] k = "d5" -> Dig("n5", "auth")
             [] k = "sha" -> [Dig("n6", "") EXCEPT !.dirs = Append(@, [n |-> "algorithm", v |-> "SHA-256"])]
             [] k = "bad" -> [NoCh EXCEPT !.scheme = "bearer"]
             [] k = "" -> NoCh
Resp(cs, code, id, k, fs) == [k |-> "resp", cseq |-> cs, code |-> code, sess |-> id, ch |-> ChOf(k), feeds |-> fs]
FeedSeq == [i \in 1..Feeds |-> [abs |-> FALSE, v |-> "t" \o ToString(i)]]

\* deliver what the client has sent to the server and to the user
RECURSIVE Flush(_)
Flush(s) ==   \* s = [c, un, n, hist]
  IF s.c.proc = <<>> THEN [s EXCEPT !.hist.reps = @ \o s.c.reps, !.c.reps = <<>>, !.c.dats = <<>>]
  ELSE LET p == Head(s.c.proc)
           k == IF p.cseq = 0 THEN s.n ELSE p.cseq
           d == Read([s.c EXCEPT !.proc = Tail(@)], p, k, "")
           q == [p EXCEPT !.cseq = k] IN
       Flush([c |-> d, un |-> Append(s.un, q), n |-> IF p.cseq = 0 THEN s.n + 1 ELSE s.n, hist |-> [s.hist EXCEPT !.reqs = Append(@, q)]])
Do(d, u, h, act) ==
  \E s \in {Flush([c |-> d, un |-> u, n |-> n, hist |-> h])} :
    c' = s.c /\ un' = s.un /\ n' = s.n /\ hist' = s.hist /\ script' = Append(script, act)
Rm(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Begin == Flush([c |-> Opened("base", Creds), un |-> <<>>, n |-> 1, hist |-> [reps |-> <<>>, reqs |-> <<>>, ok |-> <<>>, ids |-> <<>>]])
Cnt0 == [cmds |-> 0, strays |-> 0, chs |-> 0, ids |-> 0, fails |-> 0]
Init == c = Begin.c /\ un = Begin.un /\ n = Begin.n /\ hist = Begin.hist /\ script = <<>> /\ cnt = Cnt0
Live == ~c.ended
Inc(f) == cnt' = [cnt EXCEPT ![f] = @ + 1]

\* an unremarkable answer while opening, when that is not the subject
Smooth == ~Deep /\ c.walk # "ready"
Plain(r) == Resp(r.cseq, 200, "", "", IF r.verb = "DESCRIBE" THEN FeedSeq ELSE <<>>)
Opening == /\ Live /\ Smooth /\ un # <<>>
           /\ Do(Handle(c, Plain(un[1])), Rm(un, 1), [hist EXCEPT !.ok = Append(@, un[1])], [a |-> "ans", i |-> 0, code |-> 200, sess |-> "", ch |-> ""])
           /\ UNCHANGED cnt
\* (DESCRIBE once it is due: what an answer before that does is left open)
MayCommand(v) == c.walk = "ready" \/ (v \in Early /\ (v = "OPTIONS" \/ c.walk \in {"describe", "setup"}))
Command(v) == /\ Live /\ ~Smooth /\ MayCommand(v) /\ cnt.cmds < MaxCmds /\ Len(un) < MaxUn
              /\ Do(Send(c, <<Req(c, v, c.base, "user")>>), un, hist, [a |-> "cmd", verb |-> v]) /\ Inc("cmds")
Answer(i, code, id) ==
  /\ Live /\ ~Smooth /\ i \in DOMAIN un
  /\ (id # "" => code = 200 /\ cnt.ids < MaxIds) /\ (code # 200 => cnt.fails < MaxFails)
  /\ Do(Handle(c, Resp(un[i].cseq, code, id, "", IF un[i].verb = "DESCRIBE" THEN FeedSeq ELSE <<>>)), Rm(un, i),
        [hist EXCEPT !.ok = IF code = 200 THEN Append(@, un[i]) ELSE @, !.ids = IF id = "" THEN @ ELSE Append(@, id)],
        [a |-> "ans", i |-> i - 1, code |-> code, sess |-> id, ch |-> ""])
  /\ cnt' = [cnt EXCEPT !.ids = IF id = "" THEN @ ELSE @ + 1, !.fails = IF code = 200 THEN @ ELSE @ + 1]
Refuse(i, k) == /\ Live /\ ~Smooth /\ i \in DOMAIN un /\ cnt.chs < MaxChs
                /\ Do(Handle(c, Resp(un[i].cseq, 401, "", k, <<>>)), Rm(un, i), hist, [a |-> "ans", i |-> i - 1, code |-> 401, sess |-> "", ch |-> k])
                /\ Inc("chs")
Stray(k) == /\ Live /\ ~Smooth /\ cnt.strays < MaxStrays
            /\ Do(Handle(c, Resp(99999, IF k = "challenge" THEN 401 ELSE 200, "X", IF k = "challenge" THEN "d2" ELSE "", <<>>)), un, hist, [a |-> "stray", kind |-> k]) /\ Inc("strays")
\* a provisional answer to a request, with whatever a final one may carry
Provisional(i) == /\ Live /\ ~Smooth /\ "provisional" \in Strays /\ i \in DOMAIN un /\ cnt.strays < MaxStrays
                  /\ Do(Handle(c, Resp(un[i].cseq, 100, "X", "", IF un[i].verb = "DESCRIBE" THEN FeedSeq ELSE <<>>)), un, hist, [a |-> "prov", i |-> i - 1]) /\ Inc("strays")
Finish(k) == Live /\ ~Smooth /\ Do(Handle(c, [k |-> k]), un, hist, [a |-> k]) /\ UNCHANGED cnt
Next == \/ Opening
        \/ \E v \in Verbs : Command(v)
        \/ \E i \in 1..MaxUn : \/ \E code \in Codes, id \in Ids : Answer(i, code, id)
                               \/ \E k \in Chs : Refuse(i, k)
                               \/ Provisional(i)
        \/ \E k \in Strays \ {"provisional"} : Stray(k)
        \/ \E k \in Ends : Finish(k)
Spec == Init /\ [][Next]_vars

\* ---- what the properties promise
Range(s) == {s[i] : i \in DOMAIN s}
Of(s, P(_)) == SelectSeq(s, P)
\* S01: new requests have new numbers, an authentication retry its own
FreshCseq == \A i, j \in DOMAIN hist.reqs : i < j => (hist.reqs[i].cseq = hist.reqs[j].cseq) = (hist.reqs[j].retried /\ ~hist.reqs[i].retried /\ hist.reqs[i].cseq = hist.reqs[j].cseq)
OutIsUnanswered == Live => {r.cseq : r \in c.out} = {un[i].cseq : i \in DOMAIN un}
\* S02
ReadyOnce == /\ Len(SelectSeq(hist.reps, LAMBDA s : s = Ready)) <= 1
             /\ Ready \in Range(hist.reps) => c.walk = "ready" /\ c.todo = 0
SetupsOnce == LET S == SelectSeq(hist.reqs, LAMBDA r : r.verb = "SETUP" /\ ~r.retried) IN
              S = <<>> \/ [i \in DOMAIN S |-> S[i].uri] = [i \in 1..Feeds |-> "base/t" \o ToString(i)]
\* S03: the reports are the confirmations, in order
Confirmed == LET conf == SelectSeq(hist.ok, LAMBDA r : r.verb \in {"PLAY", "PAUSE", "TEARDOWN"})
                 said == SelectSeq(hist.reps, LAMBDA s : s > Ready)
                 want == [i \in DOMAIN conf |-> Stage(conf[i].verb)] IN
             said = want \/ (c.ended /\ 4 \notin Range(want) /\ said = Append(want, 4))
\* S04
LatestId == \A i \in DOMAIN hist.reqs : hist.reqs[i].sess \in {""} \cup Range(hist.ids)
CurrentId == c.sess = IF hist.ids = <<>> THEN "" ELSE hist.ids[Len(hist.ids)]
\* S05: at most one retry of a request, always under a challenge
OneRetry == \A i, j \in DOMAIN hist.reqs : i # j /\ hist.reqs[i].cseq = hist.reqs[j].cseq => hist.reqs[i].retried # hist.reqs[j].retried
RetryCarries == \A i \in DOMAIN hist.reqs : hist.reqs[i].retried => hist.reqs[i].chal.scheme # "none"
\* S12: Done once, unless the server confirms several times, and at the latest when the session ended
DoneOnce == /\ LET conf == Len(SelectSeq(hist.ok, LAMBDA r : r.verb = "TEARDOWN")) IN
               Len(SelectSeq(hist.reps, LAMBDA s : s = 4)) = IF c.ended /\ conf = 0 THEN 1 ELSE conf
            /\ (c.ended => c.done)

Stop == ~Live \/ ~ENABLED Next
\* S02: opening goes on as long as the server answers and describes streams
NoStall == c.ended \/ un # <<>> \/ c.walk = "ready" \/ (c.walk = "describe" /\ \A i \in DOMAIN hist.ok : hist.ok[i].verb # "DESCRIBE")
Emit == Stop => PrintT("CASE@" \o ToJson([script |-> script]))
=============================================================================
