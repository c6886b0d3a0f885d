--------------------------- MODULE ParamSetsTrace ---------------------------
(* Recorded parsing histories against ParamSets.  A rejected line names    *)
(* the property: sps (P01), pps (P02), store (P03).                        *)
EXTENDS ParamSets, TraceBase
VARIABLE l
E == Trace[l]
Kind == IF E.op \in {"sps", "pps"} THEN E.op
        ELSE IF E.buf = <<>> THEN "none"
        ELSE IF E.buf[1] % 32 = 7 THEN "sps" ELSE IF E.buf[1] % 32 = 8 THEN "pps" ELSE "none"
Rbsp == IF E.op \in {"sps", "pps"} THEN E.buf ELSE AB!Unescape(From(E.buf, 2))
R == IF Kind = "none" THEN [how |-> "none"]
     ELSE CHOOSE r \in {IF Kind = "sps" THEN DecodeSps(b) ELSE DecodePps(b, ChromaOf) : b \in {Rbsp}} : TRUE

\* what the code stored against what the set says
SameLists(f, g, n) ==
  \A i \in 1..n :
    LET ds == f.lists[i] off == IF i <= 6 THEN 16 * (i - 1) ELSE 96 + 64 * (i - 7) IN
    /\ (ds # <<>>) = ((g.lists \div Pow2(i - 1)) % 2 = 1)
    /\ ds # <<>> => (g.usedef[i] = 1) = UseDefault(ds)
    /\ ds # <<>> /\ ~UseDefault(ds) => SubSeq(g.sl, off + 1, off + ListSize(i)) = ListOf(ds, ListSize(i))
SameNames(f, g, names) == \A x \in names : f[x] = g[x]
SpsSame(f, g) ==
  /\ SameNames(f, g, {"profile", "constraint", "level", "id", "chroma", "sepcolor", "luma", "cbcr", "bypass", "matrix",
       "log2fn", "poc", "log2poc", "delta0", "offnonref", "offtopbot", "ncycle", "maxref", "gaps", "wmbs", "hmap",
       "mbsonly", "mbaff", "direct8", "crop", "cl", "cr", "ct", "cb", "vui"})
  /\ SameLists(f, g, 12)
  /\ g.width = WidthOf(f) /\ g.height = HeightOf(f)
PpsSame(f, g) ==
  /\ SameNames(f, g, {"id", "sps", "cabac", "bottom", "ngroups", "maptype", "chgdir", "chgrate", "l0", "l1", "wp", "wb",
       "qp", "qs", "cqp", "deblock", "cintra", "redundant", "t8x8", "matrix"})
  /\ Holds("map6", f) => f.picsize = g.picsize /\ f.groupid = g.groupid
  /\ f.runs = SubSeq(g.runs, 1, Len(f.runs))
  /\ \A i \in 1..(Len(f.rects) \div 2) : f.rects[2 * i - 1] = g.tl[i] /\ f.rects[2 * i] = g.br[i]
  /\ SameLists(f, g, 12)
  /\ f.ext = 1 => f.cqp2 = g.cqp2

\* what a lookup gave for the parsed set itself
Seen(ids, id) == \E i \in DOMAIN ids : ids[i] = id
At(ids, got, id) == LET i == CHOOSE i \in DOMAIN ids : ids[i] = id IN got[i]

Accepted == Kind # "none" /\ ~E.err
\* the id a set of unknown meaning may have been stored under
Known(r) == r.how = "ok" \/ (r.how = "odd" /\ r.at >= (IF Kind = "sps" THEN 4 ELSE 1))
SNext(r) == IF Accepted /\ Kind = "sps" /\ Known(r) THEN Put(sps, r.f.id, [how |-> r.how, f |-> r.f]) ELSE sps
PNext(r) == IF Accepted /\ Kind = "pps" /\ Known(r) THEN Put(pps, r.f.id, [how |-> r.how, f |-> r.f]) ELSE pps

ParsedOK(r) ==       \* the set itself (P01, P02)
  r.how = "ok" =>
    /\ ~E.err
    /\ IF Kind = "sps"
       THEN Seen(E.sids, r.f.id) => LET g == At(E.sids, E.sps, r.f.id) IN g.has /\ SpsSame(r.f, g.f)
       ELSE Seen(E.pids, r.f.id) => LET g == At(E.pids, E.pps, r.f.id) IN g.has /\ PpsSame(r.f, g.f)

\* The store (P03), whatever the sets mean: E.solo is what the code makes of
\* this one set in a fresh store (for a picture set: one that holds the
\* accepted sequence sets).
VARIABLES ssps, spps      \* id -> fields as stored
After(store, id) == IF Accepted /\ E.solo.id = id THEN [has |-> TRUE, f |-> E.solo.f]
                    ELSE IF id \in DOMAIN store THEN [has |-> TRUE, f |-> store[id]] ELSE [has |-> FALSE]
Agree(store, ids, got, mine) ==
  \A i \in DOMAIN ids : LET w == IF mine THEN After(store, ids[i])
                               ELSE IF ids[i] \in DOMAIN store THEN [has |-> TRUE, f |-> store[ids[i]]] ELSE [has |-> FALSE] IN
    IF w.has THEN got[i].has /\ got[i].f = w.f ELSE ~got[i].has
StoreOK(r) ==
  /\ Agree(ssps, E.sids, E.sps, Kind = "sps")
  /\ Agree(spps, E.pids, E.pps, Kind = "pps")
  /\ Kind = "none" => ~E.err
  /\ Kind # "none" => E.err = E.solo.err /\ (r.how = "short" => E.err)
SStore == IF Accepted /\ Kind = "sps" /\ E.solo.id >= 0 THEN Put(ssps, E.solo.id, E.solo.f) ELSE ssps
PStore == IF Accepted /\ Kind = "pps" /\ E.solo.id >= 0 THEN Put(spps, E.solo.id, E.solo.f) ELSE spps

\* the generator's own sets are well-formed (8x8 lists need the sequence set)
GeneratorOK(r) == E.wf /\ Kind # "none" => r.how = "ok" \/ (Kind = "pps" /\ PpsSyntax[r.at].n = "lists")
Step == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF E.op = "new" THEN sps' = <<>> /\ pps' = <<>> /\ ssps' = <<>> /\ spps' = <<>>
           ELSE \E r \in {R} :     \* evaluated once
                /\ sps' = SNext(r) /\ pps' = PNext(r)
                /\ ssps' = SStore /\ spps' = PStore
                /\ GeneratorOK(r) \/ Reject(l, "generator")
                /\ Kind = "none" \/ ParsedOK(r) \/ Reject(l, Kind)
                /\ StoreOK(r) \/ Reject(l, "store")
TSpec == l = 1 /\ SInit /\ ssps = <<>> /\ spps = <<>> /\ [][Step]_<<l, sps, pps, ssps, spps>>
=============================================================================
