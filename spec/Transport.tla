----------------------------- MODULE Transport ------------------------------
(* T01.  Transport values and headers (RFC 2326 section 12.39).            *)
(* A header is [lower, params]; lower is "TCP", "UDP" or "" (which means   *)
(* UDP); a parameter is [n |-> name] with a value v where it has one:      *)
(* pairs <<a, b>>, numbers or text.  A value that is not of the form its   *)
(* parameter needs is [n |-> name, bad |-> TRUE].                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoPair == <<0, 0>>
Blank == [tcp |-> FALSE, multicast |-> FALSE, interleaved |-> FALSE, append |-> FALSE,
          interleave |-> NoPair, port |-> NoPair, client_port |-> NoPair, server_port |-> NoPair,
          layers |-> 0, ttl |-> 0, destination |-> "", source |-> "", ssrc |-> "", mode |-> "PLAY"]
FirstPort == 50000

\* the value built for the i-th stream (i from 0)
New(proto, i) ==
  CASE proto \in {"tcp", "http"} -> [Blank EXCEPT !.tcp = TRUE, !.interleaved = TRUE, !.interleave = <<2 * i, 2 * i + 1>>]
    [] proto = "unicast"   -> [Blank EXCEPT !.client_port = <<FirstPort + 2 * i, FirstPort + 2 * i + 1>>]
    [] proto = "multicast" -> [Blank EXCEPT !.multicast = TRUE, !.port = <<FirstPort + 2 * i, FirstPort + 2 * i + 1>>]

\* ---- understanding a header -------------------------------------------------
Numbers == {"layers", "ttl"}
Pairs   == {"port", "client_port", "server_port"}
Texts   == {"source", "ssrc", "mode"}
Apply(t, p) ==
  CASE p.n = "unicast"     -> [t EXCEPT !.multicast = FALSE]
    [] p.n = "multicast"   -> [t EXCEPT !.multicast = TRUE]
    [] p.n = "append"      -> [t EXCEPT !.append = TRUE]
    [] p.n = "interleaved" -> [t EXCEPT !.interleaved = TRUE, !.interleave = p.v, !.multicast = FALSE]
    [] p.n = "destination" -> IF "v" \in DOMAIN p THEN [t EXCEPT !.destination = p.v] ELSE t
    [] p.n \in Numbers \cup Pairs \cup Texts -> [t EXCEPT ![p.n] = p.v]
    [] OTHER -> t
RECURSIVE ApplyAll(_, _)
ApplyAll(t, ps) == IF ps = <<>> THEN t ELSE ApplyAll(Apply(t, Head(ps)), Tail(ps))
Bad(h) == \E i \in DOMAIN h.params : "bad" \in DOMAIN h.params[i]
Parse(t, h) == ApplyAll(IF h.lower = "" THEN t ELSE [t EXCEPT !.tcp = (h.lower = "TCP")], h.params)

\* ---- writing a header ---------------------------------------------------------
Opt(c, p) == IF c THEN {p} ELSE {}
Flags == {"unicast", "multicast", "append"}
\* the parameters, by the kind of value they have (their order is free)
Carries(t) ==
  [flags |-> Opt(~t.tcp, IF t.multicast THEN "multicast" ELSE "unicast") \cup Opt(t.append, "append"),
   pairs |-> Opt(t.interleaved, [n |-> "interleaved", v |-> t.interleave]) \cup UNION {Opt(t[x] # NoPair, [n |-> x, v |-> t[x]]) : x \in Pairs},
   nums  |-> Opt(t.multicast /\ ~t.tcp /\ t.ttl > 0, [n |-> "ttl", v |-> t.ttl]) \cup Opt(t.layers > 0, [n |-> "layers", v |-> t.layers]),
   texts |-> UNION {Opt(t[x] # "", [n |-> x, v |-> t[x]]) : x \in {"destination", "source", "ssrc"}}
             \cup Opt(t.mode # "PLAY", [n |-> "mode", v |-> t.mode])]
\* what the header leaves out comes back as the default
Carried(t) == [t EXCEPT !.multicast = @ /\ ~t.tcp, !.ttl = IF t.multicast /\ ~t.tcp THEN t.ttl ELSE 0,
                        !.interleave = IF t.interleaved THEN @ ELSE NoPair]
=============================================================================
