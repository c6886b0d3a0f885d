------------------------------- MODULE SdpGen -------------------------------
(* All descriptions of up to MaxLines lines from a palette.                *)
EXTENDS Sdp, Json, FiniteSets
CONSTANTS MaxLines
VARIABLES lines, st
vars == <<lines, st>>
Palette == {
  [k |-> "m", media |-> "video", pts |-> <<96, 97>>], [k |-> "m", media |-> "video", pts |-> <<33>>], [k |-> "m", media |-> "audio", pts |-> <<96>>],
  [k |-> "control", v |-> "trackID=1"], [k |-> "control", v |-> "rtsp://cam/a/50/H264/2;x=config=12"],
  [k |-> "rtpmap", pt |-> 96, enc |-> "H264", clock |-> 90000], [k |-> "rtpmap", pt |-> 97, enc |-> "H263", clock |-> 1000],
  [k |-> "fmtp", pt |-> 96, ps |-> <<[n |-> "sprop-parameter-sets", v |-> <<<<103, 66, 0, 255>>, <<104, 1>>>>]>>],
  [k |-> "fmtp", pt |-> 33, ps |-> <<[n |-> "packetization-mode", v |-> "1"], [n |-> "sprop-parameter-sets", v |-> <<<<103, 250, 239, 190>>>>], [n |-> "sizelength", v |-> 13]>>],
  [k |-> "other", v |-> "a=x-codec:96 MPEG4-GENERIC/16000;config=aabb"],
  [k |-> "other", v |-> "i=control:nowhere"]}
Init == lines = <<>> /\ st = Start
Next == Len(lines) < MaxLines /\ \E ln \in Palette : lines' = Append(lines, ln) /\ st' = Line(st, ln)
Spec == Init /\ [][Next]_vars
\* one entry per video section, in order
OnePerVideo == LET vs == SelectSeq(lines, LAMBDA x : x.k = "m" /\ x.media = "video") IN
  Len(st.entries) = Len(vs) /\ \A i \in DOMAIN vs : st.entries[i].pt = vs[i].pts[1]
\* what a section says reaches its entry, whatever surrounds it
NoLeak == \A i \in DOMAIN st.entries :
  st.entries[i].control # "" => \E j \in DOMAIN lines : lines[j].k = "control" /\ lines[j].v = st.entries[i].control
     /\ Cardinality({h \in 1..j : lines[h].k = "m" /\ lines[h].media = "video"}) = i
     /\ \E h \in 1..j : lines[h].k = "m" /\ lines[h].media = "video" /\ \A g \in (h + 1)..j : lines[g].k # "m"
\* swapping two adjacent attribute lines of different kinds changes nothing
OrderFree == \A j \in 1..(Len(lines) - 1) :
  (lines[j].k # lines[j + 1].k /\ lines[j].k # "m" /\ lines[j + 1].k # "m") =>
     Entries([lines EXCEPT ![j] = lines[j + 1], ![j + 1] = lines[j]]) = st.entries
\* no section says the same thing twice (what that means is left open)
Key(x) == IF x.k \in {"rtpmap", "fmtp"} THEN <<x.k, x.pt>> ELSE <<x.k, 0>>
Plain == \A i, j \in DOMAIN lines :
  (i < j /\ lines[i].k \in {"control", "rtpmap", "fmtp"} /\ Key(lines[i]) = Key(lines[j])) => \E h \in i..j : lines[h].k = "m"
Emit == Plain /\ Len(lines) = MaxLines => PrintT("CASE@" \o ToJson([lines |-> lines, want |-> st.entries]))
=============================================================================
