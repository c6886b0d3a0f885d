---------------------------- MODULE TransportGen ----------------------------
(* Building: every transport value of a family, written and read back.     *)
(* Reading: every sequence of distinct parameters up to MaxParams.         *)
EXTENDS Transport, Json
CONSTANTS MaxParams
VARIABLES kind, t, h
vars == <<kind, t, h>>
Hd(l) == [lower |-> l, params |-> <<>>]
Values == {[Blank EXCEPT !.tcp = a, !.multicast = b, !.interleaved = a, !.interleave = IF a THEN <<4, 5>> ELSE NoPair, !.append = c,
                         !.port = p, !.client_port = q, !.server_port = <<r, IF r = 0 THEN 0 ELSE r + 1>>, !.ttl = x, !.layers = y, !.destination = d,
                         !.source = s, !.ssrc = z, !.mode = m] :
             a \in BOOLEAN, b \in BOOLEAN, c \in BOOLEAN, p \in {NoPair, <<5000, 5001>>}, q \in {NoPair, <<50002, 50003>>}, r \in {0, 6000}, x \in {0, 127},
             y \in {0, 2}, d \in {"", "239.0.0.1"}, s \in {"", "10.0.0.1"}, z \in {"", "1A2B3C4D"}, m \in {"PLAY", "RECORD"}}
Sane(v) == ~(v.tcp /\ v.multicast)
Palette == <<[n |-> "unicast"], [n |-> "multicast"], [n |-> "append"], [n |-> "interleaved", v |-> <<2, 3>>], [n |-> "destination"],
  [n |-> "destination", v |-> "h=1"], [n |-> "source", v |-> "10.1.1.1"], [n |-> "ttl", v |-> 16], [n |-> "ttl", bad |-> TRUE], [n |-> "layers", v |-> 3], [n |-> "port", v |-> <<7000, 7001>>],
  [n |-> "client_port", v |-> <<50000, 50001>>], [n |-> "client_port", bad |-> TRUE], [n |-> "server_port", v |-> <<8000, 8009>>],
  [n |-> "ssrc", v |-> "DEADBEEF"], [n |-> "mode", v |-> "RECORD"], [n |-> "x-other", v |-> "port"]>>
Clash == {{"unicast", "multicast"}, {"multicast", "interleaved"}}
Protos == {"tcp", "http", "unicast", "multicast"}
Init == \/ kind = "value" /\ t \in {v \in Values : Sane(v)} /\ h = Hd("")
        \/ kind = "new" /\ t \in {New(p, i) @@ [proto |-> p, i |-> i] : p \in Protos, i \in 0..5} /\ h = Hd("")
        \/ kind = "read" /\ t \in {New("tcp", 1), New("unicast", 1)} /\ h \in {Hd("TCP"), Hd("UDP"), Hd("")}
           /\ (h.lower = "" => ~t.tcp)      \* no lower transport over a TCP value: left open
Next == /\ kind = "read" /\ Len(h.params) < MaxParams
        /\ \E k \in DOMAIN Palette :
             LET p == Palette[k] IN
             /\ (\A i \in DOMAIN h.params : h.params[i].n # p.n /\ {h.params[i].n, p.n} \notin Clash)
             /\ h' = [h EXCEPT !.params = Append(@, p)]
        /\ UNCHANGED <<kind, t>>
Spec == Init /\ [][Next]_vars
RECURSIVE Order(_)
Order(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o Order(s \ {x})
AllOf(c) == Order({[n |-> x] : x \in c.flags}) \o Order(c.pairs) \o Order(c.nums) \o Order(c.texts)
Header(v) == [lower |-> IF v.tcp THEN "TCP" ELSE "", params |-> AllOf(Carries(v))]
RoundTrip == kind = "value" => Parse(Blank, Header(t)) = Carried(t)
\* the pairs of different streams do not overlap and start at an even number
Disjoint == \A p \in Protos : \A i, j \in 0..40 : i # j =>
   LET Of(k) == LET v == New(p, k) IN IF p \in {"tcp", "http"} THEN v.interleave ELSE IF p = "unicast" THEN v.client_port ELSE v.port IN
   Of(i)[1] % 2 = 0 /\ Of(i)[2] = Of(i)[1] + 1 /\ {Of(i)[1], Of(i)[2]} \cap {Of(j)[1], Of(j)[2]} = {}
ASSUME Disjoint
\* each parameter only sets its own field (transport direction excepted)
OwnField == kind = "read" /\ ~Bad(h) => LET r == Parse(t, h) IN
  \A x \in Numbers \cup Pairs \cup {"source", "ssrc", "mode"} :
    (\A i \in DOMAIN h.params : h.params[i].n # x) => r[x] = t[x]
Emit == PrintT("CASE@" \o ToJson(
  [kind |-> kind, t |-> t] @@ (IF kind = "read" THEN [h |-> h, bad |-> Bad(h)] @@ (IF Bad(h) THEN <<>> ELSE [want |-> Parse(t, h)])
   ELSE [carries |-> AllOf(Carries(t)), lower |-> IF t.tcp THEN "TCP" ELSE "", want |-> Carried(t)])))
=============================================================================
