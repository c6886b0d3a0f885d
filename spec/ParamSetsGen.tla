----------------------------- MODULE ParamSetsGen ---------------------------
(* Well-formed parameter sets over all syntax branches.  The specification *)
(* checks that its decoder inverts its encoder on each of them; the coded  *)
(* sets and the fields they stand for are then replayed into the code.     *)
EXTENDS ParamSets, Json
CONSTANTS SpsSet, PpsSet, Zs
VARIABLES kind, f, z, b
vars == <<sps, pps, kind, f, z, b>>
S0 == Start0(SpsSyntax)
P0 == Blank(PpsSyntax)
NoLists == [i \in 1..12 |-> <<>>]
Full(n, d) == [i \in 1..n |-> d]
Lists1 == [NoLists EXCEPT ![1] = <<-8>>, ![2] = <<8, -16>>, ![6] = Full(16, 1), ![7] = <<4, 120, -127, 3, 0>> \o Full(59, 0), ![8] = Full(64, 2)]
Lists2 == [Lists1 EXCEPT ![9] = <<-8>>, ![12] = <<1, 1, -10>>]
Sizes == {[wmbs |-> 79, hmap |-> 44], [wmbs |-> 0, hmap |-> 1]}
Pocs == {[poc |-> 0, log2poc |-> 4], [poc |-> 2],
         [poc |-> 1, delta0 |-> 1, offnonref |-> -3, offtopbot |-> 2, ncycle |-> 2, cycle |-> <<1, -70000>>], [poc |-> 1, offnonref |-> 1]}
Frames == {[mbsonly |-> 1], [mbsonly |-> 0], [mbsonly |-> 0, mbaff |-> 1, direct8 |-> 1]}
Crops == {[crop |-> 0], [crop |-> 1, cl |-> 1, cr |-> 2, ct |-> 3, cb |-> 1]}
Chromas == {[chroma |-> 0], [chroma |-> 1, luma |-> 2], [chroma |-> 2, cbcr |-> 1, bypass |-> 1], [chroma |-> 3], [chroma |-> 3, sepcolor |-> 1]}
Matrices == {[matrix |-> 0], [matrix |-> 1, lists |-> Lists1]}
\* all merges of one record from each set
RECURSIVE Merge(_)
Merge(ss) == IF ss = <<>> THEN {<<>>} ELSE {r @@ s : r \in Head(ss), s \in Merge(Tail(ss))}
Of(ss, base) == {r @@ base : r \in Merge(ss)}
Heads(ps) == {[profile |-> p, constraint |-> c, level |-> 40, id |-> i, maxref |-> 4, log2fn |-> 3] : p \in ps, c \in {64}, i \in {0, 31}}
Fit(s) == IF s.chroma = 3 /\ s.matrix = 1 THEN [s EXCEPT !.lists = Lists2] ELSE s
Fits(s) == s.crop = 1 => WidthOf(s) > 0 /\ HeightOf(s) > 0
SpsQuick ==
  {s \in {Fit(s) : s \in
     Of(<<Heads({66, 77, 88}), {[wmbs |-> 79, hmap |-> 44]}, Pocs, Frames, Crops, {[vui |-> 0], [vui |-> 1, gaps |-> 1]}>>, S0)
     \cup Of(<<Heads({100}), Sizes, Pocs, Frames, Crops, Chromas, Matrices>>, S0)
     \cup Of(<<Heads(HighProfiles \ {100}), Sizes, {[poc |-> 0]}, {[mbsonly |-> 1]}, Crops, {[chroma |-> 2], [chroma |-> 3]}, Matrices>>, S0)} : Fits(s)}
SpsThorough ==
  {s \in {Fit(s) : s \in
     Of(<<Heads({66, 77, 88}), Sizes, Pocs, Frames, Crops, {[vui |-> 0], [vui |-> 1, gaps |-> 1]}>>, S0)
     \cup Of(<<Heads(HighProfiles), Sizes, Pocs, Frames, Crops, Chromas, Matrices>>, S0)} : Fits(s)}
Groups == {[ngroups |-> 0], [ngroups |-> 2, maptype |-> 0, runs |-> <<3, 0, 70>>], [ngroups |-> 7, maptype |-> 0, runs |-> <<1, 2, 3, 4, 5, 6, 7, 8>>],
           [ngroups |-> 3, maptype |-> 1], [ngroups |-> 2, maptype |-> 2, rects |-> <<1, 9, 4, 30>>],
           [ngroups |-> 1, maptype |-> 3, chgdir |-> 1, chgrate |-> 5], [ngroups |-> 1, maptype |-> 4, chgrate |-> 6], [ngroups |-> 1, maptype |-> 5, chgdir |-> 1, chgrate |-> 0],
           [ngroups |-> 1, maptype |-> 6, picsize |-> 4, groupid |-> <<0, 1, 1, 0, 1>>], [ngroups |-> 2, maptype |-> 6, picsize |-> 2, groupid |-> <<2, 1, 0>>],
           [ngroups |-> 3, maptype |-> 6, picsize |-> 2, groupid |-> <<2, 3, 0>>], [ngroups |-> 4, maptype |-> 6, picsize |-> 2, groupid |-> <<4, 3, 0>>],
           [ngroups |-> 7, maptype |-> 6, picsize |-> 7, groupid |-> <<7, 6, 5, 4, 3, 2, 1, 0>>]}
PHeads == {[id |-> i, sps |-> i % 2] : i \in {0, 1, 255}}
Flags == {[cabac |-> 1, l0 |-> 3, wp |-> 1, wb |-> 2, qp |-> -26, qs |-> 25, cqp |-> -12, deblock |-> 1], [bottom |-> 1, l1 |-> 31, qp |-> 3, cqp |-> 2, cintra |-> 1, redundant |-> 1]}
Exts == {[ext |-> 0], [ext |-> 1], [ext |-> 1, t8x8 |-> 1, cqp2 |-> -5], [ext |-> 1, matrix |-> 1, lists |-> [Lists1 EXCEPT ![7] = <<>>, ![8] = <<>>], cqp2 |-> 7],
         [ext |-> 1, t8x8 |-> 1, matrix |-> 1, lists |-> Lists1]}
PpsAll == Of(<<PHeads, Groups, Flags, Exts>>, P0)
Coded == IF kind = "sps" THEN Encode(SpsSyntax, f, f.chroma, IF f.vui = 1 THEN <<0, 1, 0, 1, 1, 0, 0>> ELSE <<>>, z)
         ELSE Encode(PpsSyntax, f, 1, <<>>, z)
Init == /\ SInit /\ z \in Zs /\ b = <<>>
        /\ \/ kind = "sps" /\ f \in SpsSet
           \/ kind = "pps" /\ f \in PpsSet
Next == b = <<>> /\ b' = Coded /\ UNCHANGED <<sps, pps, kind, f, z>>
Spec == Init /\ [][Next]_vars
One(id) == 1
RoundTrip == b # <<>> => LET r == IF kind = "sps" THEN DecodeSps(b) ELSE DecodePps(b, One) IN r.how = "ok" /\ r.f = f
\* the last bit that is set ends the set: cut before it, the set is refused
CutShort == (b # <<>> /\ (IF kind = "sps" THEN f.vui = 0 ELSE f.ext = 0) /\ z = 0) =>
              LET c == SubSeq(b, 1, Len(b) - 2) IN
              (IF kind = "sps" THEN DecodeSps(c) ELSE DecodePps(c, One)).how # "ok"
Brief == [n \in DOMAIN f \ {"lists", "cycle", "runs", "rects", "groupid", "cqp2", "ext"} |-> f[n]]
Emit == b # <<>> => PrintT("CASE@" \o ToJson([kind |-> kind, buf |-> b, f |-> Brief,
          w |-> IF kind = "sps" THEN WidthOf(f) ELSE 0, h |-> IF kind = "sps" THEN HeightOf(f) ELSE 0]))
=============================================================================
