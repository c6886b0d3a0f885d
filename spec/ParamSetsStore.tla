--------------------------- MODULE ParamSetsStore ---------------------------
(* P03.  All histories of N sets over a palette of whole, damaged and       *)
(* foreign units.  What the two stores hold after each step is written out  *)
(* and compared with what the real store finds.                             *)
EXTENDS ParamSets, Json
CONSTANT N
VARIABLES h            \* <<palette index, view of sps, view of pps, refused>> ...
S0 == Start0(SpsSyntax)
P0 == Blank(PpsSyntax)
Seq1(id, ref) == [profile |-> 66, level |-> 30, id |-> id, maxref |-> ref, wmbs |-> 39, hmap |-> 29, mbsonly |-> 1] @@ S0
Seq3(id, ref) == [profile |-> 100, level |-> 40, id |-> id, maxref |-> ref, wmbs |-> 79, hmap |-> 44, mbsonly |-> 1, chroma |-> 3] @@ S0
Pic(id, s, l) == [id |-> id, sps |-> s, l0 |-> l] @@ P0
Ls(n) == [i \in 1..12 |-> IF i = n THEN <<-8>> ELSE <<>>]
Pic8(id, s, l, n) == [ext |-> 1, t8x8 |-> 1, matrix |-> 1, lists |-> Ls(n), cqp2 |-> 1] @@ Pic(id, s, l)
SB(f) == Encode(SpsSyntax, f, f.chroma, <<>>, 0)
PB(f, ch) == Encode(PpsSyntax, f, ch, <<>>, 0)
Cut(b) == SubSeq(b, 1, Len(b) - 2)
Palette == <<
  [k |-> "sps", b |-> SB(Seq1(0, 1))], [k |-> "sps", b |-> SB(Seq3(0, 2))], [k |-> "sps", b |-> SB(Seq1(1, 3))],
  [k |-> "sps", b |-> SB(Seq1(31, 4))], [k |-> "sps", b |-> Cut(SB(Seq1(0, 5)))], [k |-> "sps", b |-> Cut(SB(Seq1(31, 5)))],
  [k |-> "pps", b |-> PB(Pic(0, 0, 1), 1)], [k |-> "pps", b |-> PB(Pic(0, 1, 2), 1)], [k |-> "pps", b |-> PB(Pic(255, 7, 3), 1)],
  [k |-> "pps", b |-> PB(Pic8(0, 0, 4, 12), 3)], [k |-> "pps", b |-> PB(Pic8(255, 0, 5, 8), 1)],
  [k |-> "pps", b |-> Cut(PB(Pic(0, 0, 6), 1) \o <<>>)], [k |-> "pps", b |-> Cut(PB(Pic8(255, 1, 7, 3), 1))],
  [k |-> "none", b |-> <<6, 1, 2>>] >>
Decoded(e) == IF e.k = "sps" THEN DecodeSps(e.b) ELSE IF e.k = "pps" THEN DecodePps(e.b, ChromaOf) ELSE [how |-> "none"]
\* what is known of a store: nothing, something (open), or fields
View(st, ids) == [i \in DOMAIN ids |-> IF ids[i] \notin DOMAIN st THEN [w |-> "none"]
                  ELSE IF st[ids[i]].how # "ok" THEN [w |-> "open"]
                  ELSE [w |-> "set", f |-> [x \in DOMAIN st[ids[i]].f \cap {"id", "sps", "maxref", "l0", "chroma", "wmbs", "profile"} |-> st[ids[i]].f[x]]]]
Sids == <<0, 1, 31>>
Pids == <<0, 255>>
Mark(st, r, known) == IF r.how = "ok" THEN Put(st, r.f.id, [how |-> "ok", f |-> r.f])
                      ELSE IF r.how = "odd" /\ known THEN Put(st, r.f.id, [how |-> "odd"])
                      ELSE st
Next == /\ Len(h) < N
        /\ \E i \in DOMAIN Palette : \E r \in {Decoded(Palette[i])} :
             /\ sps' = IF Palette[i].k = "sps" THEN Mark(sps, r, TRUE) ELSE sps
             /\ pps' = IF Palette[i].k = "pps" THEN Mark(pps, r, TRUE) ELSE pps
             /\ h' = Append(h, [i |-> i, how |-> r.how, s |-> View(sps', Sids), p |-> View(pps', Pids)])
Spec == SInit /\ h = <<>> /\ [][Next]_<<sps, pps, h>>
\* a refused or foreign unit leaves no trace; an accepted one changes its own id only
Untouched == [][ LET e == Palette[h'[Len(h')].i] r == h'[Len(h')].how IN
                 /\ r \in {"short", "none"} => UNCHANGED <<sps, pps>>
                 /\ e.k = "sps" => pps' = pps
                 /\ e.k = "pps" => sps' = sps ]_<<sps, pps, h>>
Emit == Len(h) = N => PrintT("CASE@" \o ToJson([h |-> h]))
PaletteOut == h = <<>> => PrintT("CASE@" \o ToJson([palette |-> Palette, sids |-> Sids, pids |-> Pids]))
=============================================================================
