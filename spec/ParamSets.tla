----------------------------- MODULE ParamSets ------------------------------
(* P01-P03.  Sequence and picture parameter sets (H.264 7.3.2.1, 7.3.2.2). *)
(* The syntax tables are data: sequences of elements with a name, a coding *)
(* and a condition.  One interpreter encodes a field record, another       *)
(* decodes a buffer, so the two can be checked against each other.         *)
EXTENDS Bytes, TLC, SequencesExt

B == INSTANCE BitReader WITH buf <- <<>>, pos <- 0
AB == INSTANCE AnnexB

El(n, k, c) == [n |-> n, k |-> k, c |-> c]
HighProfiles == {100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135}

SpsSyntax == <<
  El("profile", "u8", "always"), El("constraint", "u8", "always"), El("level", "u8", "always"),
  El("id", "ue", "always"),
  El("chroma", "ue", "high"), El("sepcolor", "u1", "chroma3"), El("luma", "ue", "high"), El("cbcr", "ue", "high"),
  El("bypass", "u1", "high"), El("matrix", "u1", "high"), El("lists", "lists", "matrix"),
  El("log2fn", "ue", "always"), El("poc", "ue", "always"), El("log2poc", "ue", "poc0"),
  El("delta0", "u1", "poc1"), El("offnonref", "se", "poc1"), El("offtopbot", "se", "poc1"),
  El("ncycle", "ue", "poc1"), El("cycle", "cycle", "poc1"),
  El("maxref", "ue", "always"), El("gaps", "u1", "always"), El("wmbs", "ue", "always"), El("hmap", "ue", "always"),
  El("mbsonly", "u1", "always"), El("mbaff", "u1", "fields"), El("direct8", "u1", "always"),
  El("crop", "u1", "always"), El("cl", "ue", "crop"), El("cr", "ue", "crop"), El("ct", "ue", "crop"), El("cb", "ue", "crop"),
  El("vui", "u1", "always") >>

PpsSyntax == <<
  El("id", "ue", "always"), El("sps", "ue", "always"), El("cabac", "u1", "always"), El("bottom", "u1", "always"),
  El("ngroups", "ue", "always"), El("maptype", "ue", "groups"),
  El("runs", "runs", "map0"), El("rects", "rects", "map2"),
  El("chgdir", "u1", "map345"), El("chgrate", "ue", "map345"),
  El("picsize", "ue", "map6"), El("groupid", "gid", "map6"),
  El("l0", "ue", "always"), El("l1", "ue", "always"), El("wp", "u1", "always"), El("wb", "u2", "always"),
  El("qp", "se", "always"), El("qs", "se", "always"), El("cqp", "se", "always"),
  El("deblock", "u1", "always"), El("cintra", "u1", "always"), El("redundant", "u1", "always"),
  El("ext", "more", "always"),
  El("t8x8", "u1", "ext"), El("matrix", "u1", "ext"), El("lists", "lists", "matrix"), El("cqp2", "se", "ext") >>

Blank(syn) == [x \in {syn[i].n : i \in DOMAIN syn} |->
  IF x = "lists" THEN [i \in 1..12 |-> <<>>] ELSE IF x \in {"cycle", "runs", "rects", "groupid"} THEN <<>> ELSE 0]

\* chroma_format_idc is 1 where the syntax does not carry it
Start0(syn) == IF "chroma" \in DOMAIN Blank(syn) THEN [Blank(syn) EXCEPT !.chroma = 1] ELSE Blank(syn)

Holds(c, f) ==
  CASE c = "always"  -> TRUE
    [] c = "high"    -> f.profile \in HighProfiles
    [] c = "chroma3" -> f.profile \in HighProfiles /\ f.chroma = 3
    [] c = "matrix"  -> f.matrix = 1
    [] c = "poc0"    -> f.poc = 0
    [] c = "poc1"    -> f.poc = 1
    [] c = "fields"  -> f.mbsonly = 0
    [] c = "crop"    -> f.crop = 1
    [] c = "groups"  -> f.ngroups > 0
    [] c = "map0"    -> f.ngroups > 0 /\ f.maptype = 0
    [] c = "map2"    -> f.ngroups > 0 /\ f.maptype = 2
    [] c = "map345"  -> f.ngroups > 0 /\ f.maptype \in 3..5
    [] c = "map6"    -> f.ngroups > 0 /\ f.maptype = 6
    [] c = "ext"     -> f.ext = 1

\* number of scaling lists; chroma: format of the sequence (for a picture set: of its sequence set)
NLists(f, chroma) ==
  IF "t8x8" \in DOMAIN f THEN 6 + (IF f.t8x8 = 1 THEN (IF chroma = 3 THEN 6 ELSE 2) ELSE 0)
  ELSE IF chroma = 3 THEN 12 ELSE 8
ListSize(i) == IF i <= 6 THEN 16 ELSE 64
GidBits(n) == IF n + 1 > 4 THEN 3 ELSE IF n + 1 > 2 THEN 2 ELSE 1      \* Ceil(Log2(n + 1))

\* ---- scaling lists: a list is coded as its deltas -------------------------
Next8(last, d) == (last + d + 256) % 256
RECURSIVE ListVals(_, _, _, _)
ListVals(ds, j, last, size) ==
  IF j > size THEN <<>>
  ELSE IF j > Len(ds) \/ Next8(last, ds[j]) = 0 THEN [i \in 1..(size - j + 1) |-> last]
  ELSE <<Next8(last, ds[j])>> \o ListVals(ds, j + 1, Next8(last, ds[j]), size)
ListOf(ds, size) == ListVals(ds, 1, 8, size)
UseDefault(ds) == ds # <<>> /\ Next8(8, ds[1]) = 0

\* ---- encoding -------------------------------------------------------------
UBits(n, v) == [i \in 1..n |-> (v \div Pow2(n - i)) % 2]
RECURSIVE Width0(_)
Width0(v) == IF v <= 1 THEN 1 ELSE 1 + Width0(v \div 2)
UeBits(v) == LET n == Width0(v + 1) IN Zeros(n - 1) \o UBits(n, v + 1)
SeBits(v) == UeBits(IF v > 0 THEN 2 * v - 1 ELSE -2 * v)
Each(s, Op(_)) == FlattenSeq([i \in DOMAIN s |-> Op(s[i])])
RECURSIVE ListsBits(_, _)
ListsBits(ls, n) == IF n = 0 THEN <<>> ELSE
  (IF Head(ls) = <<>> THEN <<0>> ELSE <<1>> \o Each(Head(ls), SeBits)) \o ListsBits(Tail(ls), n - 1)
ElBits(e, f, chroma) ==
  CASE e.k = "u1" -> <<f[e.n]>>
    [] e.k = "u2" -> UBits(2, f[e.n])
    [] e.k = "u8" -> UBits(8, f[e.n])
    [] e.k = "ue" -> UeBits(f[e.n])
    [] e.k = "se" -> SeBits(f[e.n])
    [] e.k = "lists" -> ListsBits(f.lists, NLists(f, chroma))
    [] e.k \in {"cycle"} -> Each(f.cycle, SeBits)
    [] e.k \in {"runs", "rects"} -> Each(f[e.n], UeBits)
    [] e.k = "gid" -> LET G(v) == UBits(GidBits(f.ngroups), v) IN Each(f.groupid, G)
    [] e.k = "more" -> <<>>
RECURSIVE SynBits(_, _, _, _)
SynBits(syn, i, f, chroma) ==
  IF i > Len(syn) THEN <<>>
  ELSE (IF Holds(syn[i].c, f) THEN ElBits(syn[i], f, chroma) ELSE <<>>) \o SynBits(syn, i + 1, f, chroma)
Pad(bs) == bs \o Zeros((8 - (Len(bs) % 8)) % 8)
ToBytes(bs) == [i \in 1..(Len(bs) \div 8) |-> ValOf(SubSeq(bs, 8 * i - 7, 8 * i))]
\* tail: bits that follow the parsed part (VUI), then the trailing bits
Encode(syn, f, chroma, tail, zeros) ==
  ToBytes(Pad(SynBits(syn, 1, f, chroma) \o tail \o <<1>>)) \o Zeros(zeros)

\* ---- decoding -------------------------------------------------------------
\* st: position p, fields f, and how it went: "ok", "short" (ran out of bits)
\* or "odd" (a value outside the standard's range: nothing is claimed).
IntOf(v) == v[1] * 65536 + v[2]
Ue(st, b) == IF B!LeadingZeros(b, st.p) > 29 /\ B!Avail(b, st.p) >= 31 THEN [how |-> "odd", v |-> 0, p |-> st.p]
             ELSE LET r == B!UE(b, st.p) IN
                  IF r.err THEN [how |-> "short", v |-> 0, p |-> st.p] ELSE [how |-> "ok", v |-> IntOf(r.v), p |-> r.pos]
Se(st, b) == LET r == Ue(st, b) IN [r EXCEPT !.v = IF r.v % 2 = 1 THEN (r.v + 1) \div 2 ELSE -(r.v \div 2)]
U(st, b, n) == LET r == B!Read(b, st.p, n) IN
               IF r.err THEN [how |-> "short", v |-> 0, p |-> st.p] ELSE [how |-> "ok", v |-> IntOf(r.v), p |-> r.pos]

\* n values of one coding; code: -1 ue, -2 se, otherwise a number of bits
RECURSIVE Many(_, _, _, _)
Many(st, b, n, code) ==
  IF n = 0 THEN [how |-> "ok", v |-> <<>>, p |-> st.p]
  ELSE LET r == IF code = -1 THEN Ue(st, b) ELSE IF code = -2 THEN Se(st, b) ELSE U(st, b, code) IN
       IF r.how # "ok" THEN [r EXCEPT !.v = <<>>]
       ELSE LET rest == Many([p |-> r.p], b, n - 1, code) IN [rest EXCEPT !.v = <<r.v>> \o @]
RECURSIVE Deltas(_, _, _, _)
Deltas(st, b, left, last) ==
  IF left = 0 THEN [how |-> "ok", v |-> <<>>, p |-> st.p]
  ELSE LET r == Se(st, b) IN
       IF r.how # "ok" THEN [r EXCEPT !.v = <<>>]
       ELSE IF r.v \notin -128..127 THEN [r EXCEPT !.how = "odd", !.v = <<>>]
       ELSE IF Next8(last, r.v) = 0 THEN [r EXCEPT !.v = <<r.v>>]
       ELSE LET rest == Deltas([p |-> r.p], b, left - 1, Next8(last, r.v)) IN [rest EXCEPT !.v = <<r.v>> \o @]
RECURSIVE Lists(_, _, _, _)
Lists(st, b, i, n) ==
  IF i > 12 THEN [how |-> "ok", v |-> <<>>, p |-> st.p]
  ELSE LET fl == IF i > n THEN [how |-> "ok", v |-> 0, p |-> st.p] ELSE U(st, b, 1) IN
       IF fl.how # "ok" THEN [fl EXCEPT !.v = <<>>]
       ELSE LET r == IF fl.v = 0 THEN [how |-> "ok", v |-> <<>>, p |-> fl.p] ELSE Deltas([p |-> fl.p], b, ListSize(i), 8) IN
            IF r.how # "ok" THEN r
            ELSE LET rest == Lists([p |-> r.p], b, i + 1, n) IN [rest EXCEPT !.v = <<r.v>> \o @]

\* position of the last 1 bit (the stop bit), or -1
RECURSIVE LastOne(_, _)
LastOne(b, p) == IF p < 0 THEN -1 ELSE IF BitAt(b, p) = 1 THEN p ELSE LastOne(b, p - 1)
Stop(b) == LastOne(b, 8 * Len(b) - 1)

ElRead(e, st, b, chroma) ==
  CASE e.k = "u1" -> U(st, b, 1)
    [] e.k = "u2" -> U(st, b, 2)
    [] e.k = "u8" -> U(st, b, 8)
    [] e.k = "ue" -> Ue(st, b)
    [] e.k = "se" -> Se(st, b)
    [] e.k = "lists" -> LET ch == IF "t8x8" \in DOMAIN st.f THEN chroma ELSE st.f.chroma IN
                        IF "t8x8" \in DOMAIN st.f /\ st.f.t8x8 = 1 /\ chroma = -1
                        THEN [how |-> "odd", v |-> <<>>, p |-> st.p]
                        ELSE Lists(st, b, 1, NLists(st.f, ch))
    [] e.k = "cycle" -> IF st.f.ncycle > 255 THEN [how |-> "odd", v |-> <<>>, p |-> st.p] ELSE Many(st, b, st.f.ncycle, -2)
    [] e.k = "runs" -> IF st.f.ngroups > 7 THEN [how |-> "odd", v |-> <<>>, p |-> st.p] ELSE Many(st, b, st.f.ngroups + 1, -1)
    [] e.k = "rects" -> IF st.f.ngroups > 7 THEN [how |-> "odd", v |-> <<>>, p |-> st.p] ELSE Many(st, b, 2 * st.f.ngroups, -1)
    [] e.k = "gid" -> IF st.f.picsize > 65535 \/ st.f.ngroups > 7 THEN [how |-> "odd", v |-> <<>>, p |-> st.p]
                      ELSE IF st.f.picsize + 1 > B!Avail(b, st.p) THEN [how |-> "short", v |-> <<>>, p |-> st.p]
                      ELSE Many(st, b, st.f.picsize + 1, GidBits(st.f.ngroups))
    [] e.k = "more" -> [how |-> IF Stop(b) < st.p THEN "odd" ELSE "ok", v |-> IF st.p < Stop(b) THEN 1 ELSE 0, p |-> st.p]
RECURSIVE DecodeFrom(_, _, _, _, _)
DecodeFrom(syn, i, st, b, chroma) ==
  IF i > Len(syn) \/ st.how # "ok" THEN st
  ELSE IF ~Holds(syn[i].c, st.f) THEN DecodeFrom(syn, i + 1, st, b, chroma)
  ELSE LET r == ElRead(syn[i], st, b, chroma) IN
       DecodeFrom(syn, i + 1, [how |-> r.how, p |-> r.p, at |-> i,
                               f |-> IF r.how = "ok" THEN [st.f EXCEPT ![syn[i].n] = r.v] ELSE st.f], b, chroma)
Decode(syn, b, chroma) == DecodeFrom(syn, 1, [how |-> "ok", p |-> 0, at |-> 0, f |-> Start0(syn)], b, chroma)

\* ---- dimensions (7.4.2.1.1) -----------------------------------------------
SubW(f) == IF f.chroma \in {1, 2} THEN 2 ELSE 1
SubH(f) == IF f.chroma = 1 THEN 2 ELSE 1
ArrayType(f) == IF f.sepcolor = 1 THEN 0 ELSE f.chroma
CropX(f) == IF ArrayType(f) = 0 THEN 1 ELSE SubW(f)
CropY(f) == (IF ArrayType(f) = 0 THEN 1 ELSE SubH(f)) * (2 - f.mbsonly)
WidthOf(f)  == 16 * (f.wmbs + 1) - CropX(f) * (f.cl + f.cr)
HeightOf(f) == 16 * (f.hmap + 1) * (2 - f.mbsonly) - CropY(f) * (f.ct + f.cb)

\* ---- the standard's ranges, as far as the claims need them ------------------
SpsInRange(f) ==
  /\ f.id <= 31 /\ f.chroma <= 3 /\ f.luma <= 6 /\ f.cbcr <= 6 /\ f.log2fn <= 12 /\ f.poc <= 2 /\ f.log2poc <= 12
  /\ f.maxref <= 16 /\ f.wmbs <= 4095 /\ f.hmap <= 4095 /\ f.constraint % 4 = 0 /\ f.profile # 183
  /\ f.cl <= 32767 /\ f.cr <= 32767 /\ f.ct <= 32767 /\ f.cb <= 32767 /\ WidthOf(f) > 0 /\ HeightOf(f) > 0
PpsInRange(f) ==
  /\ f.id <= 255 /\ f.sps <= 31 /\ f.ngroups <= 7 /\ f.maptype <= 6 /\ f.l0 <= 31 /\ f.l1 <= 31 /\ f.wb <= 2
  /\ f.qp \in -62..25 /\ f.qs \in -26..25 /\ f.cqp \in -12..12 /\ f.cqp2 \in -12..12
\* only trailing bits after the parsed part (VUI is not parsed)
SpsComplete(r, b) == IF r.f.vui = 1 THEN Stop(b) >= r.p ELSE Stop(b) = r.p
PpsComplete(r, b) == Stop(b) = r.p

Verdict(r, ok) == IF r.how = "ok" /\ ~ok THEN [r EXCEPT !.how = "odd"] ELSE r
DecodeSps(b) == LET r == Decode(SpsSyntax, b, -1) IN
  IF r.how # "ok" THEN r ELSE Verdict(r, SpsInRange(r.f) /\ SpsComplete(r, b))
DecodePps(b, chromaOf(_)) ==
  LET i == Decode(SubSeq(PpsSyntax, 1, 2), b, -1) IN
  IF i.how # "ok" THEN i ELSE
  LET r == Decode(PpsSyntax, b, chromaOf(i.f.sps)) IN
  IF r.how # "ok" THEN r ELSE Verdict(r, PpsInRange(r.f) /\ PpsComplete(r, b))

\* ---- the store --------------------------------------------------------------
VARIABLES sps, pps       \* id -> [how, f] of the latest accepted set
pvars == <<sps, pps>>
SInit == sps = <<>> /\ pps = <<>>
\* chroma format of the sequence set a picture set refers to; -1 not known
ChromaOf(id) == IF id \in DOMAIN sps /\ sps[id].how = "ok" THEN sps[id].f.chroma ELSE -1
Put(store, id, v) == (id :> v) @@ store
=============================================================================
