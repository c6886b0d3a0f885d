------------------------------ MODULE FeedsGen ------------------------------
(* All descriptions of up to MaxSec sections of a palette, over every      *)
(* lower protocol, and all sequences of up to MaxAns answers.              *)
EXTENDS Feeds, Json, FiniteSets
CONSTANTS MaxSec, MaxAns
VARIABLES proto, lines, fs, ans
vars == <<proto, lines, fs, ans>>
Sps(id) == IF id = 0 THEN <<103, 66, 0, 30, 149, 160, 40, 15, 100>> ELSE <<103, 66, 0, 30, 69, 104, 10, 3, 217>>
Pps == <<104, 206, 56, 128>>
Cut == <<103, 66, 0, 30>>
Sei == <<6, 5, 1, 0, 128>>
Sec(m, sprops) == <<[k |-> "m", media |-> m, pts |-> <<96>>], [k |-> "rtpmap", pt |-> 96, enc |-> "H264", clock |-> 90000]>>
                  \o (IF sprops = <<>> THEN <<>> ELSE <<[k |-> "fmtp", pt |-> 96, ps |-> <<[n |-> "sprop-parameter-sets", v |-> sprops]>>]>>)
Sections == <<Sec("video", <<>>), Sec("video", <<Sps(0), Pps>>), Sec("video", <<Sps(1)>>), Sec("video", <<Cut, Sei, Pps>>), Sec("audio", <<Sps(0)>>)>>
Answers(p) == {[lower |-> IF p \in {"tcp", "http"} THEN "TCP" ELSE "UDP", params |-> q] :
   q \in {IF p \in {"tcp", "http"} THEN <<[n |-> "interleaved", v |-> <<6, 7>>], [n |-> "ssrc", v |-> "0000ABCD"]>> ELSE IF p = "multicast" THEN <<[n |-> "multicast"], [n |-> "port", v |-> <<6000, 6001>>]>>
          ELSE <<[n |-> "unicast"], [n |-> "client_port", v |-> <<50000, 50001>>], [n |-> "server_port", v |-> <<6970, 6971>>]>>,
          IF p \in {"tcp", "http"} THEN <<[n |-> "interleaved", bad |-> TRUE]>> ELSE <<[n |-> "client_port", bad |-> TRUE]>>}}
RECURSIVE Lines(_)
Lines(s) == IF s = <<>> THEN <<>> ELSE Sections[Head(s)] \o Lines(Tail(s))
Init == /\ proto \in {"tcp", "http", "unicast", "multicast"}
        /\ \E n \in 0..MaxSec : \E s \in [1..n -> DOMAIN Sections] : lines = Lines(s)
        /\ fs = Describe(proto, lines) /\ ans = <<>>
Next == /\ Len(ans) < MaxAns
        /\ \E i \in DOMAIN fs : \E h \in Answers(proto) : ans' = Append(ans, [i |-> i - 1, h |-> h]) /\ fs' = Setup(fs, i, h)
        /\ UNCHANGED <<proto, lines>>
Spec == Init /\ [][Next]_vars
\* only an accepted answer sets a feed up, and only that one
Own == [][\A i \in DOMAIN fs : fs'[i] = fs[i] \/ ans'[Len(ans')].i = i - 1]_vars
SetMeansAccepted == \A i \in DOMAIN fs : fs[i].set = (\E j \in DOMAIN ans : ans[j].i = i - 1 /\ ~T!Bad(ans[j].h))
\* the sets stored are those of the feed's own section
OwnSets == \A i \in DOMAIN fs : (fs[i].sps # <<>> => fs[i].set) /\ Cardinality(DOMAIN fs[i].sps) + Cardinality(DOMAIN fs[i].pps) <= Len(fs[i].e.sprops)
PairOf(t) == IF t.interleaved THEN t.interleave ELSE IF t.multicast THEN t.port ELSE t.client_port
Disjoint == ans = <<>> => \A i, j \in DOMAIN fs : i # j => PairOf(fs[i].t) # PairOf(fs[j].t)
Decodes == ~\E i \in DOMAIN fs : fs[i].loose
Emit == ans # <<>> \/ fs = <<>> => PrintT("CASE@" \o ToJson([proto |-> proto, lines |-> lines, ans |-> ans]))
=============================================================================
