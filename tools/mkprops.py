#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements are maintained here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

NOSESS = "No existing test opens a session: net/rtsp tests cover one Digest and one Basic header value only."

p("S01", "Every response acts on its own request and on no other",
  "On one connection every new request carries a CSeq that no earlier request used (an authentication retry keeps the CSeq of its request), and a response acts only on the outstanding request whose CSeq it carries, in whatever order responses arrive. A response that matches no outstanding request (unknown, repeated or stray CSeq) changes nothing, a provisional (1xx) response leaves its request outstanding, and the session keeps working.",
  ["schedules", "histories"], "all orders in which a server answers the outstanding requests, with stray and repeated responses in between",
  NOSESS + " Reordering, duplication and pipelined SETUPs are schedules no unit test enumerates.",
  ["net/rtsp/session.go", "net/rtsp/message.go"],
  [("CSeq allocation and pending-request table", "net/rtsp/session.go command/enqueue/dequeue"), ("dispatch on the verb of the matched request", "net/rtsp/session.go handleRtsp")],
  [("cseq", "last CSeq handed out", "Session.cseq"), ("queue", "requests awaiting a response", "Session.queue")],
  ["requests on the wire", "Session.State", "Session.Data"])

p("S02", "Opening a session walks OPTIONS, DESCRIBE, SETUP and reports Ready once",
  "After a session is opened the client sends OPTIONS, then (once that is answered) DESCRIBE, which asks for application/sdp, then (once that succeeds) exactly one SETUP per video stream of the description, in order, addressed to that stream's control URI (a relative control follows the base URI after one slash). Ready is reported exactly once, when the last of those SETUPs has been answered, whether accepted or refused, and never earlier.",
  ["schedules", "inputs", "configurations"], "all descriptions (number and form of control URIs), all orders and outcomes of the SETUP answers, with or without authentication on the way",
  NOSESS,
  ["net/rtsp/session.go", "net/rtsp/feed.go"],
  [("verb-driven workflow", "net/rtsp/session.go handleRtsp/Setup/handleSetup"), ("feed list from SDP", "net/rtsp/feed.go ParseFeeds")],
  [("feeds", "media streams with the CSeq of their SETUP", "Session.feeds"), ("feedidx", "number of answered SETUPs", "Session.feedidx")],
  ["requests on the wire", "Session.State"])

p("S03", "Playing, paused and done are reported exactly when the server confirms",
  "Each success response to PLAY, PAUSE or TEARDOWN leads to exactly one report of the matching stage to the user, in the order in which the responses arrive; a failure response leads to none. No report is lost or repeated however late the user reads it, and media received in between is still delivered.",
  ["schedules", "histories"], "all histories of user commands, server answers (success or failure) and user delays",
  NOSESS, ["net/rtsp/session.go"],
  [("stage signalling", "net/rtsp/session.go notify, handleRtsp")],
  [("stage", "current stage", "Session.stage"), ("State", "stage reports to the user", "Session.State")],
  ["Session.State", "Session.Data"])

p("S04", "Requests carry the session identifier the server assigned last",
  "Once the server has assigned a session identifier, every later DESCRIBE, PLAY, PAUSE, TEARDOWN and keep-alive request carries exactly that identifier, without the parameters that followed it; before that, none carries one. When the server assigns a new identifier, requests sent or re-sent afterwards carry the new one.",
  ["histories", "inputs"], "all histories in which the server assigns, repeats or changes the identifier, with any timeout parameters",
  NOSESS, ["net/rtsp/session.go", "net/rtsp/message.go"],
  [("identifier captured from responses", "net/rtsp/session.go handleRtsp"), ("identifier written into requests", "net/rtsp/session.go enqueue, net/rtsp/message.go Request.Pack")],
  [("session", "identifier assigned by the server", "Session.session")], ["requests on the wire"])

p("S05", "A 401 is answered once, on the same request, with valid credentials",
  "A 401 answer to any request makes the client send that same request (same verb, URI, CSeq and headers) once more with an Authorization that is valid for that challenge and the credentials of the URL, and all later requests carry a valid Authorization for the latest challenge from the start. If the repeated request is refused with 401 again, or there are no credentials, or the challenge is unusable, the client does not send it again and the session ends.",
  ["histories", "fault_sequences"], "all points of the session at which a challenge arrives (several requests outstanding, changed nonce, Basic or Digest, wrong credentials)",
  NOSESS + " The tests call the header formatter once each; retries, several outstanding requests and repeated refusals never occur.",
  ["net/rtsp/session.go", "net/rtsp/digest.go"],
  [("retransmission with Authorization", "net/rtsp/session.go handleRtsp, authorize"), ("preemptive authorization", "net/rtsp/session.go command")],
  [("auth", "credentials calculator for the last challenge", "Session.auth")], ["requests on the wire", "Session.State"])

p("S06", "Authorization values verify under RFC 2617 for every challenge and request",
  "For every well-formed Basic or Digest challenge (any realm, nonce and opaque text including commas and equals signs though not quotes or backslashes, with or without qop, MD5 or MD5-sess, unknown directives ignored) each Authorization value produced verifies on a server that recomputes it from the challenge, the verb and the credentials. With qop, successive values for one challenge carry nonce counts 1, 2, 3, ...; challenges of another scheme or an unsupported algorithm are refused with an error.",
  ["inputs", "histories"], "all challenges over the grammar, all user names and passwords, all sequences of verbs authorised from one challenge",
  "The two existing tests check one value of one challenge each; they never produce a second value from a challenge nor vary the challenge.",
  ["net/rtsp/digest.go"], [("challenge parser", "net/rtsp/digest.go NewDigest"), ("response computation and nonce counting", "net/rtsp/digest.go Authenticate, response, Next")],
  [("nc", "nonce count", "Digest.nc"), ("ha1", "hashed credentials", "Digest.ha1")], ["NewDigest/Authenticate results"])

p("S07", "Interleaved media is delivered complete, byte-exact and in order",
  "Every interleaved frame the server sends on the RTSP connection is delivered to the user exactly once, with its channel number and exactly its payload (any length from 0 to 65535), in the order sent, and responses between frames are still recognised. This holds however the TCP stream is cut into segments and however long the pauses between segments are.",
  ["inputs", "schedules"], "all sequences of frames and responses, all payload lengths and contents, all segmentations and stalls of the byte stream",
  "No existing test covers the stream decoder; segmentations and stalls are schedules.",
  ["net/rtsp/session.go", "net/rtsp/connection.go", "net/rtsp/message.go"],
  [("frame decoder", "net/rtsp/session.go receive"), ("buffered reads with deadline", "net/rtsp/connection.go Peek/ReadLine/ReadBytes")],
  [("rdr", "buffered input", "Conn.rdr"), ("Data", "delivered packets", "Conn.Data")], ["Session.Data"])

p("S08", "Commands issued concurrently do not disturb each other",
  "Commands issued at the same time from several goroutines, and while responses and challenges are being handled, are each written to the connection whole and carry pairwise different CSeq values. Every one of them is matched with its own response, and with digest qop no nonce count is used twice for one nonce.",
  ["schedules"], "all interleavings of user commands with each other and with the receive loop",
  "No existing test issues a command at all, let alone two at once.",
  ["net/rtsp/session.go", "net/rtsp/connection.go"],
  [("lock around CSeq, pending table, session id and authorization", "net/rtsp/session.go command/enqueue/dequeue")],
  [("cseq", "last CSeq handed out", "Session.cseq"), ("queue", "requests awaiting a response", "Session.queue")], ["requests on the wire"])

p("S09", "Every request is well-formed RTSP and never exposes the URL's credentials",
  "Every request sent is a complete RTSP/1.0 message: request line with verb, absolute URI and version, exactly one CSeq, header lines with CRLF, an empty line, no body. Neither the URI nor any header other than Authorization ever contains the user name and password of the URL, and the host always carries an explicit port.",
  ["inputs", "histories"], "all source URLs (with or without port, credentials, query), all verbs and points of the session",
  NOSESS, ["net/rtsp/message.go", "net/rtsp/connection.go"],
  [("request formatting", "net/rtsp/message.go Request.Pack"), ("URL without user information", "net/rtsp/connection.go Dial")],
  [("BaseURI", "URI without credentials", "Conn.BaseURI")], ["requests on the wire", "Request.Pack"])

p("S10", "UDP sessions are kept alive, TCP sessions are left alone",
  "While a session over UDP is ready, playing or paused, the client sends an OPTIONS request with the session identifier regularly even if nothing arrives, at most once every two seconds and with no gap much longer than the read timeout on top of that. Keep-alives never start before Ready, stop after Done, never change the stage, and are never sent on sessions over TCP.",
  ["schedules", "configurations"], "all transports, all stages, with a silent or chatty server",
  NOSESS + " The property is about time and absence of messages.",
  ["net/rtsp/session.go"], [("keep-alive test in the receive loop", "net/rtsp/session.go KeepAlive/process")],
  [("last", "time of the last keep-alive", "Session.last"), ("stage", "current stage", "Session.stage")], ["requests on the wire"])

p("S11", "UDP media arrives on the ports that were advertised",
  "For a unicast UDP session every datagram sent to the client ports that the SETUP request of the i-th video stream advertised is delivered to the user exactly once, complete, in order per port, on channel 2i for the first port and 2i+1 for the second, from the time Ready is reported. Stopping the listeners ends delivery and releases the ports, and does not block.",
  ["configurations", "inputs", "histories"], "all numbers of streams, all datagram sizes and contents, start and stop at any time",
  NOSESS, ["net/rtsp/session.go", "net/rtsp/connection.go", "net/rtsp/transport.go"],
  [("UDP listeners", "net/rtsp/connection.go AddSink/Start/Stop"), ("listener ports from transport", "net/rtsp/session.go handleSetup")],
  [("sinks", "UDP listeners", "Conn.sinks")], ["Session.Data"])

p("S12", "The end of a session is reported, not swallowed",
  "When the connection ends or the server sends something that is not RTSP, the user gets exactly one Done report, unless the session already reported Done, and nothing after it; the process does not crash. Until then silence from the server, however long, does not end the session.",
  ["fault_sequences", "crash_points"], "all points at which the connection is cut or garbage arrives",
  NOSESS, ["net/rtsp/session.go", "net/rtsp/message.go"],
  [("receive loop exit", "net/rtsp/session.go process"), ("timeouts are not errors", "net/rtsp/connection.go isTimeoutOrTemp")],
  [("stage", "current stage", "Session.stage")], ["Session.State"])

p("S13", "RTSP over HTTP tunnels every request on POST and reads replies on GET",
  "In HTTP mode the client opens, with well-formed HTTP requests, a GET and a POST connection that carry the same session cookie, which no other session uses (the POST announcing a body length), sends every RTSP request as base64 on the POST connection in order and complete, and handles responses and interleaved frames arriving on the GET connection as in TCP mode. A GET answer that is not an HTTP success line and header block makes opening fail with an error.",
  ["histories", "inputs"], "all sessions in HTTP mode, all forms of the GET answer",
  NOSESS, ["net/rtsp/http.go", "net/rtsp/connection.go"],
  [("GET handshake", "net/rtsp/http.go ConnectHTTP/ReceiveHTTP"), ("base64 POST writer", "net/rtsp/connection.go Write")],
  [("post", "POST connection", "Conn.post"), ("guid", "session cookie", "Conn.guid")], ["bytes on the GET and POST connections"])

p("T01", "Transport headers are built and understood per RFC 2326",
  "A transport value built for the i-th stream names the requested lower transport and a distinct even/odd pair (2i, 2i+1) of channels or client ports, and formatting then parsing a transport gives back every parameter it carries. Parsing accepts the parameters of a well-formed value in any order, with blanks around parameters and quotes around the mode, takes each number and address from its own parameter and leaves the others alone, and reports malformed numbers as an error.",
  ["inputs", "configurations"], "all combinations and orders of transport parameters",
  "The existing tests do not touch transport headers.", ["net/rtsp/transport.go"],
  [("formatter", "net/rtsp/transport.go Transport.String"), ("parser", "net/rtsp/transport.go Parse/ParsePair")], (), ["Transport.String/Parse", "SETUP requests on the wire"])

p("M01", "Responses are parsed exactly as sent",
  "A well-formed RTSP response is parsed to exactly its status code and text, its headers (names matched without regard to case, surrounding blanks removed, values otherwise untouched, including colons), its CSeq and a body of exactly the announced length, which stays valid after later reads. The bytes following the body are left for the next message; an unsupported version or malformed status line or header is reported as an error.",
  ["inputs"], "all responses over the grammar, including bodies larger than any internal buffer",
  NOSESS, ["net/rtsp/message.go", "net/rtsp/connection.go"],
  [("response parser", "net/rtsp/message.go Unpack"), ("header access", "net/rtsp/message.go MessageHeader")], (), ["rtsp.Unpack"])

p("D01", "A session description yields its video streams with their own attributes",
  "Parsing a session description yields one entry per video section, in order, with that section's payload type, control URI, codec, clock rate and parameter sets, independent of the order of attribute lines and of line endings. Attributes of other sections or of the session level, and look-alike text inside other attributes, never leak into an entry.",
  ["inputs"], "all descriptions over the SDP grammar with any number and order of sections and attributes",
  "The one existing test parses a sample and asserts nothing about the result.", ["net/sdp/packet.go"],
  [("line-driven parser", "net/sdp/packet.go Parse")], [("m", "current video section", "Parse")], ["sdp.Parse"])

p("R01", "RTP packets are unpacked per RFC 3550",
  "Unpacking any buffer yields either a packet whose flags, payload type, sequence number, timestamp, SSRC, CSRC list, extension and payload are exactly those of the RTP layout, with padding removed from the payload, or an error when the version is not 2 or the buffer is shorter than its header announces.",
  ["inputs"], "all byte sequences", "net/rtp has no tests.", ["net/rtp/packet.go"], [("header walk", "net/rtp/packet.go Unpack")], (), ["rtp.Unpack"])

p("R02", "RTCP packets are unpacked per RFC 3550",
  "Unpacking any buffer yields either a packet whose padding flag, count, type and length are exactly those of the RTCP header, with sender identity, NTP and RTP timestamps and packet and octet counts exact for sender reports, or an error when the version is not 2 or the buffer is too short for the header or, for a sender report, for the sender information and report blocks it announces.",
  ["inputs"], "all byte sequences", "net/rtcp has no tests.", ["net/rtcp/packet.go"], [("header walk", "net/rtcp/packet.go Unpack")], (), ["rtcp.Unpack"])

p("N01", "Single and aggregated NAL units come out complete, once and in order",
  "Pushing the payloads of an RTP stream yields, for each payload, exactly the NAL units it carries - one for a single unit packet, all of them for STAP-A, STAP-B, MTAP16, MTAP24 or an Annex B byte stream - in order, with the right header byte (from which type and importance are read) and content with emulation prevention removed, and nothing left over from the payload before. Unit contents do not change when the caller reuses the buffer.",
  ["inputs", "histories"], "all sequences of well-formed payloads of all packet types, all unit contents including ones that contain start-code or emulation patterns across headers",
  "No existing test pushes a payload.", ["net/h264/packet.go", "net/h264/annexb.go"],
  [("payload dispatch and de-aggregation", "net/h264/packet.go Push/parseNAL/parseSTAP/parseMTAP")], [("Units", "units of the last payload", "NALSink.Units")], ["NALSink.Units"])

p("N02", "Fragmented NAL units are reassembled exactly, and only from whole series",
  "A NAL unit split into FU-A or FU-B fragments is delivered exactly once, with the last fragment, with the original header (type and importance) and the original content with emulation prevention removed wherever the cuts fall. Fragments that do not belong to the series in progress - its start was lost, its type or timestamp differs, or it was interrupted by another packet or a new start - never contribute to a unit, and do not harm units that follow.",
  ["inputs", "histories", "fault_sequences"], "all ways to cut a unit into fragments, all losses of leading or trailing fragments, interleaved with other units",
  "No existing test pushes a payload.", ["net/h264/packet.go"],
  [("fragment queue", "net/h264/packet.go AddFragment")], [("Fragments", "fragments of the current series", "NALSink.Fragments")], ["NALSink.Units"])

p("N03", "Timestamps and decoding order numbers follow RFC 6184",
  "Every unit carries the RTP timestamp of its packet, plus its own 16- or 24-bit offset for MTAP, and its decoding order number: base plus difference for MTAP, the announced number and its successors for STAP-B, the announced number for a series begun by FU-B, and consecutive numbers in arrival order for streams without announced numbers, all modulo 2^16 (timestamps modulo 2^32). The difference of two numbers is the signed distance modulo 2^16.",
  ["inputs", "histories"], "all streams legal in packetization modes 0, 1 and 2, including numbers and timestamps at the wrap-around",
  "No existing test pushes a payload.", ["net/h264/packet.go"],
  [("DON and timestamp arithmetic", "net/h264/packet.go parseSTAP/parseMTAP/AddFragment, DonDiff")], [("Don", "next decoding order number", "NALSink.Don")], ["NALSink.Units", "DonDiff"])

p("B01", "An Annex B byte stream is split into exactly its NAL units",
  "A byte stream of NAL units, each preceded by a three- or four-byte start code and any number of further zero bytes, is split into exactly those units, in order, each with its emulation prevention bytes removed and without zero padding; no empty unit is ever produced from a stream that has units.",
  ["inputs"], "all sequences of units with any contents, any mix of start codes and padding",
  "One sample stream is tested.", ["net/h264/annexb.go"], [("start code scan", "net/h264/annexb.go SplitAnnexB")], (), ["SplitAnnexB"])

p("B02", "Emulation prevention is safe and reversible",
  "Encapsulating any byte sequence gives one that contains no 00 00 00, 00 00 01 or 00 00 02 pattern and from which removing emulation prevention gives back the original bytes. Removing emulation prevention deletes exactly the 03 of each 00 00 03 and nothing else, for every input.",
  ["inputs"], "all byte sequences", "Two samples are tested, neither with overlapping zero runs nor with zeros at the end.",
  ["net/h264/annexb.go"], [("encapsulation and its inverse", "net/h264/annexb.go RBSPToEncapsulated/EBSPToRaw")], (), ["RBSPToEncapsulated", "EBSPToRaw"])

p("B03", "The bit reader returns exactly the next bits, at any alignment",
  "For any buffer and any sequence of reads and skips of 0 to 32 bits, each read returns exactly the next bits in order, the number of available bits falls by exactly the number consumed, and a request beyond the end fails and consumes nothing. Unsigned and signed Exp-Golomb values (up to 31 leading zeros) and SEI size codes are decoded per H.264, and the trailing-bits test accepts exactly a one followed by zeros to the end of the byte.",
  ["inputs", "histories"], "all buffers and all sequences of operations",
  "A dozen reads on two bytes are tested.", ["net/h264/bits.go"], [("bit position arithmetic", "net/h264/bits.go ReadBits/SkipBits/ReadUnsignedGolomb")],
  [("byten,bitn", "read position", "BitReader")], ["BitReader methods"])

p("P01", "Picture dimensions and fields of every sequence parameter set are right",
  "For every sequence parameter set that is well-formed by H.264 7.3.2.1 (any profile, chroma format, picture order count type, frame or field coding, cropping, scaling lists), parsing stores its fields and the picture width and height the standard derives, whether it arrives raw or as an sprop value with emulation prevention.",
  ["inputs"], "all well-formed sequence parameter sets",
  "Two samples of the same camera (progressive 4:2:0 without cropping, order count type 0) are tested.", ["net/h264/spspps.go", "net/h264/bits.go"],
  [("syntax walk and size derivation", "net/h264/spspps.go ParseSPS")], (), ["ParameterSets.GetSPS"])

p("P02", "Every well-formed picture parameter set is accepted with the right fields",
  "For every picture parameter set that is well-formed by H.264 7.3.2.2 (with or without the transform 8x8 extension, any slice group type, scaling lists, trailing zero bytes), parsing succeeds and stores exactly its field values; the trailing bits are never mistaken for data.",
  ["inputs"], "all well-formed picture parameter sets", "One sample is tested, for its id only.", ["net/h264/spspps.go"],
  [("syntax walk", "net/h264/spspps.go ParsePPS")], (), ["ParameterSets.GetPPS"])

p("P03", "Parameter sets are stored by id, latest accepted wins, rejected leave no trace",
  "After any sequence of parameter sets, looking up an id gives the fields of the latest accepted set of that kind with that id, and sets of other ids or the other kind are untouched. A set cut off before its last field is rejected, a rejected set changes nothing, and other NAL types are ignored.",
  ["histories"], "all sequences of sequence and picture parameter sets, valid and truncated", "Each test parses a single set into a fresh store.",
  ["net/h264/spspps.go"], [("id-indexed stores", "net/h264/spspps.go ParseSPS/ParsePPS/ParseSprop/GetSPS/GetPPS")],
  [("spset,ppset", "stored sets by id", "ParameterSets")], ["GetSPS", "GetPPS"])

p("H01", "The playlist is a sliding window over contiguous byte ranges",
  "After any number of added segments a playlist with room for n lists exactly the last n of them (or all, if fewer), oldest first, each with its own duration and length at the offset where the one before ended, starting from 0 with the first segment ever added. Every entry names the media URI, and rendering has no side effect.",
  ["histories", "configurations"], "all window sizes and all numbers of additions, in particular many times around the ring",
  "One window of 5 with 6 additions is tested; the ring never wraps at its start index.", ["net/hls/playlist.go"],
  [("ring of segments", "net/hls/playlist.go AddSegment"), ("rendering", "net/hls/playlist.go String")],
  [("First,Last", "ends of the window", "Playlist")], ["Playlist.String"])

p("X01", "Hostile or damaged input never crashes or hangs a parser",
  "No byte sequence given to the RTP, RTCP, H.264 payload, Annex B, parameter set, session description, transport or challenge parsers, or sent by a server to a session, makes the process panic, hang or allocate without bound; it is either parsed or refused with an error. After a refused payload, well-formed payloads are handled as before.",
  ["inputs", "fault_sequences"], "all byte sequences at every parser, alone and following valid input",
  "The tests feed well-formed samples only.", ["net/rtp/packet.go", "net/rtcp/packet.go", "net/h264/packet.go", "net/h264/bits.go", "net/h264/spspps.go", "net/sdp/packet.go", "net/rtsp/transport.go", "net/rtsp/digest.go", "net/rtsp/message.go"],
  [("length checks", "all Unpack/parse functions")], (), ["return values", "process liveness"])

p("E01", "The ouro command plays, pauses, tears down and exits",
  "Given a camera URL, the command opens the session, sends PLAY only after all streams are set up, PAUSE some seconds after PLAY is confirmed, TEARDOWN some seconds after PAUSE is confirmed, and exits after TEARDOWN is confirmed. While doing so it consumes every media packet it receives without stalling the session, damaged packets included. It also exits when the session ends before that.",
  ["histories", "inputs"], "all media traffic and answer delays of the camera", "cmd/ouro has no tests.",
  ["cmd/ouro/main.go"], [("stage-driven loop with timer", "cmd/ouro/main.go handleStates")], [("state", "last reported stage", "handleStates")], ["requests on the wire", "exit status"])

p("M02", "Packed responses unpack to what they were; header maps ignore name case",
  "Packing a response that was unpacked, and unpacking the result, gives the same status code, headers, CSeq and body and leaves nothing over, so packed responses may follow one another on a connection. A header map finds, replaces and deletes a header regardless of the case of its name; the last value set wins and other headers stay.",
  ["inputs", "histories"], "all responses that Unpack accepts (token header names) and all histories of a header map",
  "No test packs a response with a body, or one response behind another.", ["net/rtsp/message.go"],
  [("response writer", "net/rtsp/message.go Response.Pack"), ("case-insensitive keys", "net/rtsp/message.go header")], (), ["Response.Pack", "Response.Unpack"])

p("M03", "A packed request says exactly what the request holds",
  "Packing a request gives one RTSP/1.0 message whose request line has its verb and URI, and whose headers are its CSeq, every header of its map once with its value, its session identifier (except for OPTIONS and SETUP), its authorization if there is one, and nothing else but a user agent and an announcement of no body. Packing changes nothing: packing again says the same.",
  ["inputs"], "all verbs, URIs, numbers, identifiers, authorizations and header maps",
  "No test packs a request.", ["net/rtsp/message.go"],
  [("request writer", "net/rtsp/message.go Request.Pack")], (), ["Request.Pack"])

p("C01", "Reading a connection returns exactly the next octets, whatever the segmentation",
  "Peek (up to 256 octets), ReadLine, ReadByte, ReadUint16, ReadBytes and Discard return, or skip, exactly the next octets of the stream however it is cut into segments. Peek never consumes; Peek and ReadBytes lose nothing across pauses longer than the read timeout. The end of the stream is reported as an error, and on a silent connection a read, or waiting for a response to begin, gives a timeout error instead of waiting for ever.",
  ["histories", "schedules", "fault_sequences"], "all streams, segmentations, pauses and sequences of reads",
  "The connection wrapper has no tests.", ["net/rtsp/connection.go"],
  [("read deadline per operation", "net/rtsp/connection.go ReadBytes/Peek/ReadLine/Discard")], (), ["Conn methods"])

p("F01", "Each video section becomes a feed of its own, set up independently",
  "A session description gives one feed per video section, in order, each with its own control, payload and parameter attributes and its own pair of channels or ports in the transport it proposes. Accepting the answer to a SETUP marks only that feed as set up and makes only its parameter sets retrievable, in its own collection; a malformed transport is an error and leaves the feed not set up, damaged parameter sets do not prevent setup.",
  ["inputs", "histories"], "all descriptions with any number of sections and all orders of answers",
  "Feeds have no tests.", ["net/rtsp/feed.go", "net/rtsp/transport.go", "net/sdp/packet.go"],
  [("one feed per section", "net/rtsp/feed.go ParseFeeds"), ("answer handling", "net/rtsp/feed.go TransportSetup")], (), ["Feed fields", "Feed.TransportHeader", "Feed.Sets"])

p("V01", "An H.264 stream reaches the player unit by unit as the camera sent it",
  "Whatever packets the camera sends on the channels of a session, over TCP, HTTP or UDP, unpacking each received packet and pushing its payload into one sink per channel gives exactly the camera's NAL units in order, with headers, timestamps and contents intact; damaged packets and streams side by side do not disturb others. Packets and units once delivered do not change afterwards.",
  ["inputs", "histories", "schedules"], "all media of several streams with any packetization, segmentation and commands between",
  "Tests unpack single packets only; nothing runs a stream through a session.", ["net/rtsp/session.go", "net/rtsp/connection.go", "net/rtp/packet.go", "net/rtcp/packet.go", "net/h264/packet.go"],
  [("interleaved frames to packets", "net/rtsp/session.go receive"), ("payload and units", "net/rtp/packet.go Unpack, net/h264/packet.go Push")], (), ["Session.Data", "NALSink.Units"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
