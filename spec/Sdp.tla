-------------------------------- MODULE Sdp ---------------------------------
(* D01.  Which attribute of a session description belongs to which video   *)
(* section (RFC 4566, RFC 6184 section 8.2).  A description is a sequence  *)
(* of lines; a line is a record:                                           *)
(*   [k |-> "m", media, pts]            media section with payload types   *)
(*   [k |-> "control", v]               a=control                          *)
(*   [k |-> "rtpmap", pt, enc, clock]   a=rtpmap (enc in upper case)       *)
(*   [k |-> "fmtp", pt, ps]             a=fmtp, ps: parameters [n, v]      *)
(*   [k |-> "other"]                    any other line, whatever it says   *)
EXTENDS Integers, Sequences, TLC

Entry(pt) == [pt |-> pt, control |-> "", codec |-> "", clock |-> 0, sprops |-> <<>>,
              config |-> <<>>, sizelength |-> 0, indexlength |-> 0]

\* entries so far, and whether the current section is a video section
Start == [entries |-> <<>>, open |-> FALSE]
Last(s) == s.entries[Len(s.entries)]
Upd(s, e) == [s EXCEPT !.entries[Len(s.entries)] = e]
Param(e, p) ==
  CASE p.n = "sprop-parameter-sets" -> [e EXCEPT !.sprops = p.v]
    [] p.n = "config"      -> [e EXCEPT !.config = p.v]
    [] p.n = "sizelength"  -> [e EXCEPT !.sizelength = p.v]
    [] p.n = "indexlength" -> [e EXCEPT !.indexlength = p.v]
    [] OTHER -> e
RECURSIVE Params(_, _)
Params(e, ps) == IF ps = <<>> THEN e ELSE Params(Param(e, Head(ps)), Tail(ps))
Codec(enc) == IF enc \in {"H264", "MPEG4-GENERIC"} THEN enc ELSE ""

Line(s, ln) ==
  CASE ln.k = "m" -> IF ln.media = "video" THEN [entries |-> Append(s.entries, Entry(ln.pts[1])), open |-> TRUE]
                     ELSE [s EXCEPT !.open = FALSE]
    [] ln.k = "other" \/ ~s.open -> s
    [] ln.k = "control" -> Upd(s, [Last(s) EXCEPT !.control = ln.v])
    [] ln.k = "rtpmap" -> IF ln.pt = Last(s).pt THEN Upd(s, [Last(s) EXCEPT !.codec = Codec(ln.enc), !.clock = ln.clock]) ELSE s
    [] ln.k = "fmtp" -> IF ln.pt = Last(s).pt THEN Upd(s, Params(Last(s), ln.ps)) ELSE s
RECURSIVE Fold(_, _)
Fold(s, lines) == IF lines = <<>> THEN s ELSE Fold(Line(s, Head(lines)), Tail(lines))
Entries(lines) == Fold(Start, lines).entries
=============================================================================
