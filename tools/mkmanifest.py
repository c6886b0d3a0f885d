#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
GEN = "TLA+ specification checked with TLC; its behaviours replayed into the code, recorded traces validated by TLC"
NOTE = {
 "H01": "all histories of the ring model up to the bound; recorded histories beyond it",
 "R01": "all headers of the generator's bounds; random and mutated packets validated line by line",
 "R02": "all headers of the generator's bounds; random and mutated packets validated line by line",
 "B01": "all short streams over a small alphabet exhaustively, random long ones by trace validation",
 "B02": "all short sequences over a small alphabet exhaustively, random long ones by trace validation",
 "B03": "all short operation sequences on small buffers, random long ones by trace validation",
 "N01": "all payload sequences of length 3 (4 thorough) over a palette, random streams with losses by trace validation",
 "N02": "all payload sequences of length 4 (5 thorough) over a palette, random streams with losses by trace validation",
 "N03": "all payload sequences over both palettes, random streams with losses by trace validation",
 "P01": "all syntax branches combined; random sets, truncations and mutations by trace validation",
 "P02": "all syntax branches combined; random sets, truncations and mutations by trace validation",
 "D01": "all descriptions of up to 4 (5 thorough) lines over a palette, random descriptions by trace validation",
 "T01": "all values of a family, all headers of up to 2 (3 thorough) parameters; random values and headers by trace validation",
 "S06": "all challenges of a family with histories of 2 (3 thorough) requests; random challenges and histories verified with MD5 facts by trace validation",
 "S01": "behaviours of the session model's state graph replayed against a scripted server; random sessions, concurrent callers included, explained by the specification",
 "S02": "behaviours of the session model's state graph replayed against a scripted server; random openings explained by the specification",
 "S03": "behaviours of the session model's state graph replayed against a scripted server; random sessions explained by the specification",
 "S04": "behaviours of the session model's state graph replayed against a scripted server; random sessions with changing identifiers explained by the specification",
 "S05": "behaviours of the session model's state graph replayed against a scripted server; random sessions with challenges explained by the specification",
 "S07": "all streams and segmentations of the framing model up to the bound; random streams, cuts and stalls by trace validation",
 "S08": "random concurrent callers on one session, recorded runs explained by the specification",
 "S09": "every request recorded from random sessions over random locations and credentials validated line by line",
 "S12": "behaviours of the session model's state graph with endings at every event; random endings explained by the specification",
 "M01": "all responses of up to 6 lines over a palette; random responses by trace validation",
 "S10": "all schedules of the keep-alive model up to the bound; timed sessions recorded with several keep-alive intervals explained by the specification",
 "S11": "all port choices and datagram schedules of the model up to the bound; recorded media over UDP validated",
 "S13": "behaviours of the session model's state graph replayed through a scripted HTTP tunnel; tunnel connections validated octet by octet",
 "X01": "all pairs of edits of the damage model applied to well-formed inputs of 16 parsers, random damage, bulk inputs; sessions under attack; every ending validated",
 "E01": "all camera behaviours of the command model up to the bound replayed against the built command; recorded runs validated",
 "M02": "all responses of up to 3 (4 thorough) lines over a palette packed and unpacked again, all short histories of a header map; random ones by trace validation",
 "M03": "all requests over a palette with up to 1 (2 thorough) headers packed; random ones by trace validation",
 "C01": "all sequences of 3 (4 thorough) reads with all cuts and pauses of the connection model; random streams, segmentations and reads by trace validation",
 "F01": "all descriptions of 2 (3 thorough) sections over a palette with all answers; random descriptions and answers by trace validation",
 "V01": "all packetizations and interleavings of two short streams replayed through sessions; random media over TCP, HTTP and UDP by trace validation",
 "P03": "all histories of 3 (4 thorough) sets over a palette replayed; random histories of valid, truncated and mutated sets by trace validation",
}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 -c 'import json; json.load(open(\"MANIFEST.json\"))' && cd harness && GOTOOLCHAIN=local GOPROXY=off GOWORK=off go vet ./xrun",
  checks=[dict(property=i, quick_cmd="./check " + i, thorough_cmd="VERIF_TIER=thorough ./check " + i, technique=GEN, level="model_checking", level_note=NOTE[i]) for i in ids if i in NOTE],
  not_applicable=[dict(property=i, reason="check not built yet") for i in ids if i not in NOTE])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
