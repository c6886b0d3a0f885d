From ad6346b1cafe2652e3e12cb81e510e3a73acba3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:45 +0000
Subject: [PATCH 01/60] fix: keep the playlist ring's first index inside the
 ring

When the ring wrapped, First was incremented without the modulo, so a full
playlist panicked in String once the oldest slot was the last one.
---
 net/hls/playlist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/hls/playlist.go b/net/hls/playlist.go
index 3704f21..94e4b6c 100644
--- a/net/hls/playlist.go
+++ b/net/hls/playlist.go
@@ -100,7 +100,7 @@ func (pl *Playlist) AddSegment(duration float64, length int64) {
 	pl.Segments[pl.Last].Position = pos
 	pl.Segments[pl.Last].Length = length
 	if pl.First == pl.Last {
-		pl.First++
+		pl.First = (pl.First + 1) % len(pl.Segments)
 	} else if pl.First < 0 {
 		pl.First = pl.Last
 	}
-- 
2.43.0


From 9755dba6c23a9602d783de00198bfee2be196fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 02/60] fix: refuse RTP packets shorter than their header
 announces

Unpack indexed past the end of short or truncated packets and panicked.
---
 net/rtp/packet.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/net/rtp/packet.go b/net/rtp/packet.go
index 77c6af5..0fb964e 100644
--- a/net/rtp/packet.go
+++ b/net/rtp/packet.go
@@ -14,6 +14,7 @@ const (
 
 var (
 	errInvalidVersion = errors.New("Invalid version of RTP packet")
+	errPacketTooShort = errors.New("Packet is too short")
 )
 
 var be = binary.BigEndian
@@ -48,6 +49,9 @@ type (
 
 // Unpack validates a packed RTP packet and converts it into a sparse structure.
 func Unpack(buf []byte) (*Packet, error) {
+	if len(buf) < HeaderSize {
+		return nil, errPacketTooShort
+	}
 	if (buf[0] & 0xC0) != RtpVersion {
 		return nil, errInvalidVersion
 	}
@@ -60,6 +64,9 @@ func Unpack(buf []byte) (*Packet, error) {
 	}
 
 	off := HeaderSize
+	if len(buf) < off+int(packet.CC())*4 {
+		return nil, errPacketTooShort
+	}
 	packet.CSRC = make([]uint32, packet.CC())
 	for i := range packet.CSRC {
 		packet.CSRC[i] = be.Uint32(buf[off:])
@@ -67,9 +74,15 @@ func Unpack(buf []byte) (*Packet, error) {
 	}
 
 	if packet.X() {
+		if len(buf) < off+4 {
+			return nil, errPacketTooShort
+		}
 		packet.XH = be.Uint16(buf[off:])
 		packet.XL = be.Uint16(buf[off+2:])
 		off += 4
+		if len(buf) < off+int(packet.XL)*4 {
+			return nil, errPacketTooShort
+		}
 		if packet.XL > 0 {
 			packet.XD = buf[off : off+int(packet.XL)*4]
 			off += int(packet.XL) * 4
-- 
2.43.0


From 9a1cd1ede4200d9dda230c8145c293dbfc898797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 03/60] fix: strip padding from the RTP payload

Padding bytes announced by the P flag were handed on as payload.
---
 net/rtp/packet.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/net/rtp/packet.go b/net/rtp/packet.go
index 0fb964e..2181a95 100644
--- a/net/rtp/packet.go
+++ b/net/rtp/packet.go
@@ -15,6 +15,7 @@ const (
 var (
 	errInvalidVersion = errors.New("Invalid version of RTP packet")
 	errPacketTooShort = errors.New("Packet is too short")
+	errInvalidPadding = errors.New("Invalid padding of RTP packet")
 )
 
 var be = binary.BigEndian
@@ -89,7 +90,16 @@ func Unpack(buf []byte) (*Packet, error) {
 		}
 	}
 
-	packet.PL = buf[off:]
+	end := len(buf)
+	if packet.P() {
+		// Last byte is the number of padding bytes, including itself.
+		pad := int(buf[end-1])
+		if pad == 0 || pad > end-off {
+			return nil, errInvalidPadding
+		}
+		end -= pad
+	}
+	packet.PL = buf[off:end]
 
 	//s.rtpChan <- packet
 	return packet, nil
-- 
2.43.0


From a2ef4842e578d907461bbe2b3e3ac6127251b324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 04/60] fix: refuse RTCP packets shorter than the header

Unpack indexed past the end of buffers of less than four bytes.
---
 net/rtcp/packet.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/rtcp/packet.go b/net/rtcp/packet.go
index e61e349..a9451c6 100644
--- a/net/rtcp/packet.go
+++ b/net/rtcp/packet.go
@@ -187,6 +187,9 @@ type DataBYE struct {
 
 // Unpack validates a packed RTCP packet and converts it into a sparse structure.
 func Unpack(buf []byte) (*Packet, error) {
+	if len(buf) < HeaderSize {
+		return nil, errPacketTooShort
+	}
 	packet := &Packet{
 		VPC: buf[0],
 		PT:  buf[1],
-- 
2.43.0


From 993f4bebe7426090ffa4e5fc0e2a036b747ac29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:53 +0000
Subject: [PATCH 05/60] fix: split Annex B streams with zero padding and
 trailing start codes

Zero bytes before a start code beyond the fourth byte, leading zero bytes and
trailing zero bytes ended up in units or as units of their own, a start code
at the very end was taken for content, and empty units were produced.
---
 net/h264/annexb.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/net/h264/annexb.go b/net/h264/annexb.go
index 565f566..e6d0f79 100644
--- a/net/h264/annexb.go
+++ b/net/h264/annexb.go
@@ -6,29 +6,33 @@ const shortStartCodeLen = 3
 // Returns a list of raw/unparsed units with emulation bytes removed.
 func SplitAnnexB(buf []byte) [][]byte {
 	units := [][]byte{}
-	end := len(buf) - shortStartCodeLen
 	prev := 0
-	for off := 0; off < end; {
+	for off := 0; off+shortStartCodeLen <= len(buf); {
 		if buf[off+2] > 1 {
 			// Speed up traversal in search for start codes
 			off += 3
 		} else if buf[off+2] == 1 && buf[off+1] == 0 && buf[off] == 0 {
-			// Do not insert 0-length slices.
-			if off > 0 && buf[off-1] == 0 {
-				if off > prev+1 {
-					units = append(units, EBSPToRaw(buf[prev:off-1]))
-				}
-			} else if off > prev {
-				units = append(units, EBSPToRaw(buf[prev:off]))
-			}
+			units = appendUnit(units, buf[prev:off])
 			off += 3
 			prev = off
 		} else {
 			off++
 		}
 	}
-	units = append(units, EBSPToRaw(buf[prev:]))
-	return units
+	return appendUnit(units, buf[prev:])
+}
+
+// appendUnit adds a unit without the zero bytes that pad it up to the next start code.
+// Does not insert 0-length slices.
+func appendUnit(units [][]byte, unit []byte) [][]byte {
+	end := len(unit)
+	for end > 0 && unit[end-1] == 0 {
+		end--
+	}
+	if end == 0 {
+		return units
+	}
+	return append(units, EBSPToRaw(unit[:end]))
 }
 
 // EBSPToRaw removes emulation prevention bytes from the buffer transforming
-- 
2.43.0


From 44878a3b79ac79b3997a6323beb881b51b2d0dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:53 +0000
Subject: [PATCH 06/60] fix: encapsulate runs of zeros and buffers ending in
 two zeros

RBSPToEncapsulated read past the end of buffers ending in 00 00 and, after
inserting an emulation prevention byte, skipped a byte that may start the next
pattern (00 00 00 00 01 kept a start code).
---
 net/h264/annexb.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/net/h264/annexb.go b/net/h264/annexb.go
index e6d0f79..a6c836c 100644
--- a/net/h264/annexb.go
+++ b/net/h264/annexb.go
@@ -62,10 +62,11 @@ func RBSPToEncapsulated(buf []byte) []byte {
 	size := len(buf)
 	ebsp := make([]byte, 0, size*2)
 	for off := 0; off < size; {
-		if size-off >= 2 && buf[off] == 0 && buf[off+1] == 0 && buf[off+2] <= 3 {
+		if size-off >= 3 && buf[off] == 0 && buf[off+1] == 0 && buf[off+2] <= 3 {
 			// Add emulation prevention bytes.
 			ebsp = append(ebsp, zero, zero, epb)
 			off += 2
+			continue
 		}
 		ebsp = append(ebsp, buf[off])
 		off++
-- 
2.43.0


From 97bccc8f8b7e68c353ee7a3919d84b66b7f62949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:53 +0000
Subject: [PATCH 07/60] fix: keep all bits of unaligned reads of more than 25
 bits

The accumulator was 32 bits wide while up to 39 bits pass through it, and
reading zero bits from an empty buffer panicked.
---
 net/h264/bits.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/net/h264/bits.go b/net/h264/bits.go
index 85581b4..55eaf79 100644
--- a/net/h264/bits.go
+++ b/net/h264/bits.go
@@ -33,16 +33,20 @@ func (r *BitReader) ReadBits(n uint) (val uint32, err error) {
 	if n > 32 || n > r.Available() {
 		return 0, io.ErrUnexpectedEOF
 	}
-	val = uint32(r.buffer[r.byten])
+	if n == 0 {
+		return 0, nil
+	}
+	// Up to 39 bits are collected before alignment.
+	acc := uint64(r.buffer[r.byten])
 	bits := 8 - r.bitn
 	for n > bits {
 		// No check here as we already know there is enough data from AvailableBits().
 		r.byten++
-		val = (val << 8) | uint32(r.buffer[r.byten])
+		acc = (acc << 8) | uint64(r.buffer[r.byten])
 		bits += 8
 	}
 	// Align and nask out most significant bits that are not requested.
-	val = (val >> (bits - n)) & ((1 << n) - 1)
+	val = uint32((acc >> (bits - n)) & ((1 << n) - 1))
 	r.bitn = 8 - (bits - n)
 	return
 }
-- 
2.43.0


From d959142376627e38909778375ec98614853d9fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 08/60] fix: remove emulation prevention per NAL unit, not per
 RTP payload

Push ran the Annex B splitter over whole payloads, so sizes, numbers and
offsets of aggregation packets that happened to contain 00 00 03 or a start
code corrupted everything after them, fragments cut inside an emulation
prevention sequence kept it, and only the units after the last start code of a
payload survived.  Only payloads that start with a start code are split now.
---
 net/h264/packet.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 8b96cb4..13800db 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -1,6 +1,7 @@
 package h264
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 )
@@ -139,7 +140,7 @@ func (s *NALSink) AddFragment(indicator byte, header byte, don uint16, ts uint32
 			Header: indicator,
 			Don:    don,
 			TS:     ts,
-			Data:   data,
+			Data:   append([]byte{}, data...),
 		},
 		Flags: header,
 	})
@@ -150,7 +151,7 @@ func (s *NALSink) AddFragment(indicator byte, header byte, don uint16, ts uint32
 		for _, frag := range s.Fragments {
 			data = append(data, frag.Data...)
 		}
-		s.Units = append(s.Units, NALUnit{Header: indicator, Don: don, TS: ts, Data: data})
+		s.addUnit(indicator, don, ts, EBSPToRaw(data))
 	}
 }
 
@@ -170,7 +171,7 @@ func (s *NALSink) parseSTAP(typ byte, buf []byte, ts uint32) error {
 		if len(buf) < int(size+2) {
 			return errPacketTooShort
 		}
-		s.Units = append(s.Units, NALUnit{Header: buf[2], Don: s.Don, TS: ts, Data: buf[3 : size+2]})
+		s.addUnit(buf[2], s.Don, ts, EBSPToRaw(buf[3:size+2]))
 		s.Don++
 		buf = buf[size+2:]
 	}
@@ -200,7 +201,7 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 		if len(buf) < int(size+off) {
 			return errPacketTooShort
 		}
-		s.Units = append(s.Units, NALUnit{Header: buf[off], Don: s.Don + dond, TS: ts + tsoff, Data: buf[off+1 : size+off]})
+		s.addUnit(buf[off], s.Don+dond, ts+tsoff, EBSPToRaw(buf[off+1:size+off]))
 		s.Don++
 		buf = buf[size+off:]
 	}
@@ -208,17 +209,28 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 
 // Push RTP payload parsing NAL units and handling aggregation and fragmenting.
 func (s *NALSink) Push(buf []byte, ts uint32) error {
-	// TODO: Detect Annex B vs AVC payloads.  If starts with Annex B start code then split on start code.
+	s.Units = s.Units[:0]
+	if !isAnnexB(buf) {
+		return s.parseNAL(buf, ts)
+	}
 	for _, nal := range SplitAnnexB(buf) {
-		if err := s.parseNAL(nal, ts); err != nil {
-			return err
-		}
+		s.addUnit(nal[0], s.Don, ts, nal[1:])
+		s.Don++
 	}
 	return nil
 }
 
+// isAnnexB tells whether the payload starts with Annex B start code.
+func isAnnexB(buf []byte) bool {
+	return bytes.HasPrefix(buf, []byte{0, 0, 1}) || bytes.HasPrefix(buf, []byte{0, 0, 0, 1})
+}
+
+// addUnit appends a unit with emulation bytes already removed.
+func (s *NALSink) addUnit(header byte, don uint16, ts uint32, data []byte) {
+	s.Units = append(s.Units, NALUnit{Header: header, Don: don, TS: ts, Data: data})
+}
+
 func (s *NALSink) parseNAL(buf []byte, ts uint32) error {
-	s.Units = s.Units[:0]
 	if len(buf) < 1 {
 		return errPacketTooShort
 	}
@@ -246,7 +258,7 @@ func (s *NALSink) parseNAL(buf []byte, ts uint32) error {
 		}
 		s.AddFragment(nri+(buf[1]&0x1F), buf[1], be.Uint16(buf[2:]), ts, buf[4:])
 	default:
-		s.Units = append(s.Units, NALUnit{Header: buf[0], Don: s.Don, TS: ts, Data: buf[1:]})
+		s.addUnit(buf[0], s.Don, ts, EBSPToRaw(buf[1:]))
 		s.Don++
 	}
 	return nil
-- 
2.43.0


From 0676604f416ebb5ee5b5250fc500441b3d9e70c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 09/60] fix: refuse aggregated units of size zero and sizes
 that overflow

The end of an aggregated unit was computed in 16 bits, so sizes close to 65535
passed the length check and panicked, as did units of size zero.
---
 net/h264/packet.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 13800db..d2b13d2 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -167,8 +167,11 @@ func (s *NALSink) parseSTAP(typ byte, buf []byte, ts uint32) error {
 		if len(buf) < 2 {
 			return nil // Nothing more to process
 		}
-		size := be.Uint16(buf)
-		if len(buf) < int(size+2) {
+		size := int(be.Uint16(buf))
+		if size == 0 {
+			return errInvalidPayloadHeader
+		}
+		if len(buf) < size+2 {
 			return errPacketTooShort
 		}
 		s.addUnit(buf[2], s.Don, ts, EBSPToRaw(buf[3:size+2]))
@@ -183,22 +186,25 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 	}
 	s.Don = be.Uint16(buf)
 	buf = buf[2:]
-	off := uint16(2 + 1 + 2) // size, donb, 16-bit ts offset
+	off := 2 + 1 + 2 // size, donb, 16-bit ts offset
 	if typ == typeMtap24 {
 		off++ // 24-bit ts offset instead of 16-bit
 	}
 	for {
-		if len(buf) < int(off) {
+		if len(buf) < off {
 			return nil // Nothing more to process
 		}
-		size := be.Uint16(buf)
+		size := int(be.Uint16(buf))
+		if size == 0 {
+			return errInvalidPayloadHeader
+		}
 		dond := uint16(buf[2])
 		// Read and handle 16-bit or 24-bit timestamp offset.
 		tsoff := uint32(buf[3])<<8 + uint32(buf[4])
 		if typ == typeMtap24 {
 			tsoff = ts<<8 + uint32(buf[5])
 		}
-		if len(buf) < int(size+off) {
+		if len(buf) < size+off {
 			return errPacketTooShort
 		}
 		s.addUnit(buf[off], s.Don+dond, ts+tsoff, EBSPToRaw(buf[off+1:size+off]))
-- 
2.43.0


From f46bc5e6219d8cd3226a4f26d2f52c312247b962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 10/60] fix: compute the 24-bit timestamp offset of MTAP24 from
 the offset

The packet's timestamp was shifted in instead of the offset's upper bits.
---
 net/h264/packet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index d2b13d2..4f16398 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -202,7 +202,7 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 		// Read and handle 16-bit or 24-bit timestamp offset.
 		tsoff := uint32(buf[3])<<8 + uint32(buf[4])
 		if typ == typeMtap24 {
-			tsoff = ts<<8 + uint32(buf[5])
+			tsoff = tsoff<<8 + uint32(buf[5])
 		}
 		if len(buf) < size+off {
 			return errPacketTooShort
-- 
2.43.0


From c568f9e2b4047585cacf70f31302f19727e505ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 11/60] fix: number every MTAP unit from the same base

The decoding order number base was incremented after each unit while the
differences are all relative to the announced base.
---
 net/h264/packet.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 4f16398..35cd440 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -208,7 +208,6 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 			return errPacketTooShort
 		}
 		s.addUnit(buf[off], s.Don+dond, ts+tsoff, EBSPToRaw(buf[off+1:size+off]))
-		s.Don++
 		buf = buf[size+off:]
 	}
 }
-- 
2.43.0


From 4e014792c89d54403db67d10cbcc05f2462e05d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 12/60] fix: build fragmented NAL units from whole series only

Fragments without a start, left over from an earlier unit or belonging to
another unit were combined into one NAL unit.
---
 net/h264/packet.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 35cd440..3639f86 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -134,6 +134,11 @@ func NewNALSink() *NALSink {
 func (s *NALSink) AddFragment(indicator byte, header byte, don uint16, ts uint32, data []byte) {
 	if (header & 0x80) != 0 {
 		s.Fragments = s.Fragments[:0]
+	} else if len(s.Fragments) == 0 {
+		return // Start of the series was lost
+	} else if first := s.Fragments[0]; first.Header != indicator || first.TS != ts {
+		s.Fragments = s.Fragments[:0]
+		return // Fragment of another unit
 	}
 	s.Fragments = append(s.Fragments, NALFragment{
 		NALUnit: NALUnit{
@@ -152,6 +157,7 @@ func (s *NALSink) AddFragment(indicator byte, header byte, don uint16, ts uint32
 			data = append(data, frag.Data...)
 		}
 		s.addUnit(indicator, don, ts, EBSPToRaw(data))
+		s.Fragments = s.Fragments[:0]
 	}
 }
 
@@ -218,6 +224,7 @@ func (s *NALSink) Push(buf []byte, ts uint32) error {
 	if !isAnnexB(buf) {
 		return s.parseNAL(buf, ts)
 	}
+	s.Fragments = s.Fragments[:0]
 	for _, nal := range SplitAnnexB(buf) {
 		s.addUnit(nal[0], s.Don, ts, nal[1:])
 		s.Don++
@@ -241,6 +248,10 @@ func (s *NALSink) parseNAL(buf []byte, ts uint32) error {
 	}
 
 	typ := buf[0] & 0x1F
+	if typ != typeFuA && typ != typeFuB {
+		// Any other packet interrupts a series of fragments.
+		s.Fragments = s.Fragments[:0]
+	}
 	switch typ {
 	case typeStapA:
 		return s.parseSTAP(typ, buf[1:], ts)
-- 
2.43.0


From c4dd05c65f9117909c28c1655ae6cc07011f2219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 13/60] fix: number fragmented units by the start of their
 series

A series begun by FU-B took the number of its last fragment, and units built
from FU-A did not advance the implicit decoding order number.
---
 net/h264/packet.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 3639f86..879dc94 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -156,8 +156,10 @@ func (s *NALSink) AddFragment(indicator byte, header byte, don uint16, ts uint32
 		for _, frag := range s.Fragments {
 			data = append(data, frag.Data...)
 		}
+		don = s.Fragments[0].Don // Only the first fragment of a series may announce the number
 		s.addUnit(indicator, don, ts, EBSPToRaw(data))
 		s.Fragments = s.Fragments[:0]
+		s.Don = don + 1
 	}
 }
 
-- 
2.43.0


From 3c5d1257c2ad2a631aa4c2b32941de0d7634097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:13 +0000
Subject: [PATCH 14/60] fix: read frame_mbs_only_flag as a flag and derive the
 picture size from it

---
 net/h264/spspps.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 5ac7854..4c7ceea 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -205,13 +205,17 @@ func (s *ParameterSets) ParseSPS(buf []byte) (err error) {
 	if sps.PicHeightInMapUnitsMinus1, err = br.ReadUnsignedGolomb(); err != nil {
 		return
 	}
-	if sps.FrameMbsOnly, err = br.ReadUnsignedGolomb(); err != nil {
+	var frameMbsOnly bool
+	if frameMbsOnly, err = br.ReadFlag(); err != nil {
 		return
 	}
+	if frameMbsOnly {
+		sps.FrameMbsOnly = 1
+	}
 	if (sps.ConstraintSet&0x2) != 0 && (sps.ProfileIdc == 77 || sps.ProfileIdc == 88 || sps.ProfileIdc == 100) {
 		sps.FrameMbsOnly = 1
 	}
-	if sps.FrameMbsOnly != 0 {
+	if sps.FrameMbsOnly == 0 {
 		if sps.MbAdaptiveFrameField, err = br.ReadFlag(); err != nil {
 			return
 		}
@@ -255,7 +259,7 @@ func (s *ParameterSets) ParseSPS(buf []byte) (err error) {
 	// Macroblock width is 16 for luma.
 	sps.Width = (sps.PicWidthInMbsMinus1 + 1) * 16 // / subWidthC
 	// FrameMbsOnly designates either full frame or field (half frame).  Hence multiplier.
-	sps.Height = (2 - sps.FrameMbsOnly) * (sps.PicHeightInMapUnitsMinus1 + 1) * 16 / subHeightC
+	sps.Height = (2 - sps.FrameMbsOnly) * (sps.PicHeightInMapUnitsMinus1 + 1) * 16
 	// Adjust for crop if present.  This accounts for monochrome vs. various color chroma formats.
 	cropUnitX := subWidthC
 	cropUnitY := (2 - sps.FrameMbsOnly) * subHeightC
-- 
2.43.0


From 380eaceee2a90aa034c6cf2e2d7d797341e32a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 15/60] fix: picture order count type 2 has no parameters

---
 net/h264/spspps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 4c7ceea..bd64281 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -174,7 +174,7 @@ func (s *ParameterSets) ParseSPS(buf []byte) (err error) {
 		if sps.Log2MaxPicOrderCnt, err = br.ReadUnsignedGolomb(); err != nil {
 			return
 		}
-	} else {
+	} else if sps.PicOrderCntType == 1 {
 		if sps.DeltaPicOrderAlways0, err = br.ReadFlag(); err != nil {
 			return
 		}
-- 
2.43.0


From a9bc1e6cee7adc7cf29619ba9bf9f4903074f7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 16/60] fix: profiles 139, 134 and 135 carry the chroma format
 too

---
 net/h264/spspps.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index bd64281..afd9d39 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -120,7 +120,8 @@ func (s *ParameterSets) ParseSPS(buf []byte) (err error) {
 	}
 	if sps.ProfileIdc == 100 || sps.ProfileIdc == 110 || sps.ProfileIdc == 122 || sps.ProfileIdc == 244 ||
 		sps.ProfileIdc == 44 || sps.ProfileIdc == 83 || sps.ProfileIdc == 86 || sps.ProfileIdc == 118 ||
-		sps.ProfileIdc == 128 || sps.ProfileIdc == 138 {
+		sps.ProfileIdc == 128 || sps.ProfileIdc == 138 || sps.ProfileIdc == 139 || sps.ProfileIdc == 134 ||
+		sps.ProfileIdc == 135 {
 		if sps.ChromaFormatIdc, err = br.ReadUnsignedGolomb(); err != nil {
 			return
 		}
-- 
2.43.0


From 7eaaf1be1429ec72ed815a936960930a00afe412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 17/60] fix: remove emulation prevention from sprop parameter
 sets

---
 net/h264/spspps.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index afd9d39..d8833fa 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -420,9 +420,9 @@ func (s *ParameterSets) ParseSprop(buf []byte) (err error) {
 	}
 	typ := buf[0] & 0x1F
 	if typ == typeSPS {
-		return s.ParseSPS(buf[1:])
+		return s.ParseSPS(EBSPToRaw(buf[1:]))
 	} else if typ == typePPS {
-		return s.ParsePPS(buf[1:])
+		return s.ParsePPS(EBSPToRaw(buf[1:]))
 	}
 	return
 }
-- 
2.43.0


From 2c86f81a64ae8d8bb6dc9d2ccfc2d719b2c05bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 18/60] fix: read the parameters of slice group map types 3 and
 4

---
 net/h264/spspps.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index d8833fa..18b4482 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -318,9 +318,7 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 				}
 			}
 			break
-		case 3:
-		case 4:
-		case 5:
+		case 3, 4, 5:
 			if pps.SliceGroupChangeDirection, err = br.ReadFlag(); err != nil {
 				return
 			}
-- 
2.43.0


From 3d1fd747e6dacd61e887f36be93764a0681787b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 19/60] fix: refuse more slice groups than the standard allows

---
 net/h264/spspps.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 18b4482..98572a6 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -1,9 +1,14 @@
 package h264
 
 import (
+	"errors"
 	"math"
 )
 
+var (
+	errBadSliceGroups = errors.New("Too many slice groups in picture parameter set")
+)
+
 type (
 	// SPSInfo holds Sequence Parameter Set information parsed from out-of-band or in-band data in the stream.
 	// Most of the information here is unused but parsed anyway.  VUI parameters are no parsed at all.
@@ -296,6 +301,9 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 	if pps.NumSliceGroupsMinus1, err = br.ReadUnsignedGolomb(); err != nil {
 		return
 	}
+	if pps.NumSliceGroupsMinus1 > 7 {
+		return errBadSliceGroups
+	}
 	if pps.NumSliceGroupsMinus1 > 0 {
 		if pps.SliceGroupMapType, err = br.ReadUnsignedGolomb(); err != nil {
 			return
-- 
2.43.0


From 6eb81e778825bacb6e36e77ab31587c01b418983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:20 +0000
Subject: [PATCH 20/60] fix: check the announced slice group map against the
 data before allocating it

---
 net/h264/spspps.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 98572a6..f5aeecc 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -2,6 +2,7 @@ package h264
 
 import (
 	"errors"
+	"io"
 	"math"
 )
 
@@ -338,8 +339,11 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 			if pps.PicSizeInMapUnitsMinus1, err = br.ReadUnsignedGolomb(); err != nil {
 				return
 			}
-			pps.SliceGroupID = make([]byte, pps.PicSizeInMapUnitsMinus1+1)
 			bits := uint(math.Ceil(math.Log2(float64(pps.NumSliceGroupsMinus1 + 1))))
+			if uint64(pps.PicSizeInMapUnitsMinus1)+1 > uint64(br.Available()/bits) {
+				return io.ErrUnexpectedEOF
+			}
+			pps.SliceGroupID = make([]byte, pps.PicSizeInMapUnitsMinus1+1)
 			for i := uint32(0); i <= pps.PicSizeInMapUnitsMinus1; i++ {
 				if pps.SliceGroupID[i], err = br.ReadByteBits(bits); err != nil {
 					return
-- 
2.43.0


From 909914c5afc2ea85bf39a8cc38d54b38b57b471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 21/60] fix: do not mistake the trailing bits of a picture
 parameter set for its extension

---
 net/h264/bits.go   | 17 +++++++++++++++++
 net/h264/spspps.go |  2 +-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/net/h264/bits.go b/net/h264/bits.go
index 55eaf79..0a36a24 100644
--- a/net/h264/bits.go
+++ b/net/h264/bits.go
@@ -160,6 +160,23 @@ func (r *BitReader) SkipGolomb() (err error) {
 	return r.SkipBits(zeroes)
 }
 
+// moreData tells whether there is data left before the stop bit, i.e. the last
+// bit that is set.
+func (r *BitReader) moreData() bool {
+	last := len(r.buffer) - 1
+	for last >= 0 && r.buffer[last] == 0 {
+		last--
+	}
+	if last < 0 {
+		return false
+	}
+	stop := uint(last)*8 + 7
+	for v := r.buffer[last]; v&1 == 0; v >>= 1 {
+		stop--
+	}
+	return r.byten*8+r.bitn < stop
+}
+
 // SkipTrailingBits ensures that remaining bits in the buffer consist of stop bit and
 // variable number of aligning zero-bits;
 func (r *BitReader) SkipTrailingBits() (err error) {
diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index f5aeecc..dfaff75 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -381,7 +381,7 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 	if pps.RedundantPicCntPresent, err = br.ReadFlag(); err != nil {
 		return
 	}
-	if br.Available() > 0 {
+	if br.moreData() {
 		if pps.Transform8x8Mode, err = br.ReadFlag(); err != nil {
 			return
 		}
-- 
2.43.0


From 101a987b50a2fe87dfcd1ae69d18233bdd6d8ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:25 +0000
Subject: [PATCH 22/60] fix: accept a media line without formats

---
 net/sdp/packet.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/sdp/packet.go b/net/sdp/packet.go
index 79d3df5..9dba9ea 100644
--- a/net/sdp/packet.go
+++ b/net/sdp/packet.go
@@ -49,6 +49,9 @@ func Parse(buf []byte) (feeds []Media) {
 					case "video": // case "audio", "video":
 						feeds = append(feeds, Media{audio: fields[0] == "audio"})
 						m = &feeds[len(feeds)-1]
+						if len(fields) < 2 {
+							break
+						}
 						mfields := strings.Split(fields[1], " ")
 						if len(mfields) >= 3 {
 							m.PayloadType, _ = strconv.Atoi(mfields[2])
-- 
2.43.0


From 9a275fbd6061c42465666a49126498f579716fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:26 +0000
Subject: [PATCH 23/60] fix: take the attributes of a media section by their
 name

---
 net/sdp/packet.go | 106 ++++++++++++++++++++++++----------------------
 1 file changed, 56 insertions(+), 50 deletions(-)

diff --git a/net/sdp/packet.go b/net/sdp/packet.go
index 9dba9ea..33c16ac 100644
--- a/net/sdp/packet.go
+++ b/net/sdp/packet.go
@@ -62,59 +62,65 @@ func Parse(buf []byte) (feeds []Media) {
 				}
 			case "a":
 				if m != nil {
-					for _, field := range fields {
-						keyval = strings.SplitN(field, ":", 2)
-						if len(keyval) >= 2 {
-							key := keyval[0]
-							val := keyval[1]
-							switch key {
-							case "control":
-								m.Control = val
-							case "rtpmap":
-								m.Rtpmap, _ = strconv.Atoi(val)
-							}
-						}
-						keyval = strings.Split(field, "/")
-						if len(keyval) >= 2 {
-							key := keyval[0]
-							switch strings.ToUpper(key) {
-							case "MPEG4-GENERIC":
-								m.Type = AAC
-							case "H264":
-								m.Type = H264
-							}
-							if i, err := strconv.Atoi(keyval[1]); err == nil {
-								m.TimeScale = i
-							}
-						}
-						keyval = strings.Split(field, ";")
-						if len(keyval) > 1 {
-							for _, field := range keyval {
-								keyval := strings.SplitN(field, "=", 2)
-								if len(keyval) == 2 {
-									key := strings.TrimSpace(keyval[0])
-									val := keyval[1]
-									switch key {
-									case "config":
-										m.Config, _ = hex.DecodeString(val)
-									case "sizelength":
-										m.SizeLength, _ = strconv.Atoi(val)
-									case "indexlength":
-										m.IndexLength, _ = strconv.Atoi(val)
-									case "sprop-parameter-sets":
-										fields := strings.Split(val, ",")
-										for _, field := range fields {
-											val, _ := base64.StdEncoding.DecodeString(field)
-											m.SpropParameterSets = append(m.SpropParameterSets, val)
-										}
-									}
-								}
-							}
-						}
-					}
+					m.attribute(keyval[1])
 				}
 			}
 		}
 	}
 	return
 }
+
+// attribute applies an attribute of the media section.  Format specific
+// attributes count only if they describe the payload type of the section.
+func (m *Media) attribute(attr string) {
+	keyval := strings.SplitN(attr, ":", 2)
+	if len(keyval) != 2 {
+		return
+	}
+	if keyval[0] == "control" {
+		m.Control = keyval[1]
+		return
+	}
+	fields := strings.SplitN(keyval[1], " ", 2)
+	pt, err := strconv.Atoi(fields[0])
+	if err != nil || pt != m.PayloadType || len(fields) != 2 {
+		return
+	}
+	switch keyval[0] {
+	case "rtpmap":
+		m.Rtpmap = pt
+		enc := strings.Split(strings.TrimSpace(fields[1]), "/")
+		switch strings.ToUpper(enc[0]) {
+		case "MPEG4-GENERIC":
+			m.Type = AAC
+		case "H264":
+			m.Type = H264
+		}
+		if len(enc) >= 2 {
+			if i, err := strconv.Atoi(enc[1]); err == nil {
+				m.TimeScale = i
+			}
+		}
+	case "fmtp":
+		for _, field := range strings.Split(fields[1], ";") {
+			keyval := strings.SplitN(field, "=", 2)
+			if len(keyval) != 2 {
+				continue
+			}
+			val := strings.TrimSpace(keyval[1])
+			switch strings.TrimSpace(keyval[0]) {
+			case "config":
+				m.Config, _ = hex.DecodeString(val)
+			case "sizelength":
+				m.SizeLength, _ = strconv.Atoi(val)
+			case "indexlength":
+				m.IndexLength, _ = strconv.Atoi(val)
+			case "sprop-parameter-sets":
+				for _, set := range strings.Split(val, ",") {
+					b, _ := base64.StdEncoding.DecodeString(set)
+					m.SpropParameterSets = append(m.SpropParameterSets, b)
+				}
+			}
+		}
+	}
+}
-- 
2.43.0


From 4de4a3ad27cbc59e0bb2a93a38bff8141ec9423a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:06 +0000
Subject: [PATCH 24/60] fix: a transport with interleaved channels is
 interleaved

---
 net/rtsp/transport.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/net/rtsp/transport.go b/net/rtsp/transport.go
index 64a736e..46b5806 100644
--- a/net/rtsp/transport.go
+++ b/net/rtsp/transport.go
@@ -184,6 +184,7 @@ func (t *Transport) Parse(value string) (err error) {
 			}
 		case "interleaved":
 			t.IsMulticast = false
+			t.IsInterleaved = true
 			if len(keyval) > 1 {
 				t.Interleave, err = ParsePair(keyval[1])
 			} else {
-- 
2.43.0


From 4e850fef01234944ad9b335a6e3c06451609563f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:07 +0000
Subject: [PATCH 25/60] fix: only the first field of a transport names the
 protocol

---
 net/rtsp/transport.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/rtsp/transport.go b/net/rtsp/transport.go
index 46b5806..72d0c9f 100644
--- a/net/rtsp/transport.go
+++ b/net/rtsp/transport.go
@@ -158,9 +158,9 @@ func (t Transport) String() string {
 // Parse transport header into constituent parts.
 func (t *Transport) Parse(value string) (err error) {
 	fields := strings.Split(value, ";")
-	for _, field := range fields {
+	for i, field := range fields {
 		keyval := strings.Split(field, "/")
-		if len(keyval) == 3 {
+		if i == 0 && len(keyval) == 3 {
 			// Third part is lower protocol TCP/UDP
 			t.IsTCP = strings.ToUpper(keyval[2]) == "TCP"
 		}
-- 
2.43.0


From f6e7ba42c0b93f00272dafcb4fa66d3d57b8afed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 26/60] fix: accept a transport destination without address

---
 net/rtsp/transport.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/net/rtsp/transport.go b/net/rtsp/transport.go
index 72d0c9f..9fafcce 100644
--- a/net/rtsp/transport.go
+++ b/net/rtsp/transport.go
@@ -173,8 +173,6 @@ func (t *Transport) Parse(value string) (err error) {
 		case "destination":
 			if len(keyval) == 2 {
 				t.Destination = keyval[1]
-			} else {
-				err = ErrMalformedTransport
 			}
 		case "source":
 			if len(keyval) == 2 {
-- 
2.43.0


From 09284bbee169aa0646519b416aa27889eb89b0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:26 +0000
Subject: [PATCH 27/60] fix: split challenge directives on commas outside
 quotes, match the scheme in any case

---
 net/rtsp/digest.go | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index 619f4bb..7a31ae9 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -44,25 +44,22 @@ func NewDigest(uri, challenge string) (*Digest, error) {
 	d := &Digest{count: 0, uri: uri}
 	d.algorithm = "md5"
 	challenge = strings.TrimSpace(challenge)
-	if strings.HasPrefix(challenge, "Digest ") {
+	i := strings.IndexByte(challenge, ' ')
+	if i == -1 {
+		return nil, ErrAuthMalformedChallenge
+	}
+	switch strings.ToLower(challenge[:i]) {
+	case "digest":
 		d.basic = false
-		challenge = challenge[7:]
-	} else if strings.HasPrefix(challenge, "Basic ") {
+	case "basic":
 		d.basic = true
-		challenge = challenge[6:]
-	} else {
+	default:
 		return nil, ErrAuthMalformedChallenge
 	}
-	parts := strings.Split(challenge, ",")
-	for i := 0; i < len(parts); i++ {
-		parts[i] = strings.TrimSpace(parts[i])
-		if len(parts[i]) == 0 {
-			continue
-		}
-
-		attr, val := parts[i], ""
+	for _, part := range splitDirectives(challenge[i+1:]) {
+		attr, val := part, ""
 		if j := strings.Index(attr, "="); j > 0 {
-			attr, val = strings.ToLower(attr[:j]), attr[j+1:]
+			attr, val = strings.ToLower(strings.TrimSpace(attr[:j])), strings.TrimSpace(attr[j+1:])
 			val = strings.Trim(val, "\"")
 			switch attr {
 			case "realm":
@@ -95,6 +92,23 @@ func NewDigest(uri, challenge string) (*Digest, error) {
 	return d, nil
 }
 
+// splitDirectives splits a list of directives on commas outside of quoted strings.
+func splitDirectives(list string) (parts []string) {
+	quoted, start := false, 0
+	for i := 0; i < len(list); i++ {
+		switch list[i] {
+		case '"':
+			quoted = !quoted
+		case ',':
+			if !quoted {
+				parts = append(parts, strings.TrimSpace(list[start:i]))
+				start = i + 1
+			}
+		}
+	}
+	return append(parts, strings.TrimSpace(list[start:]))
+}
+
 // Authenticate creates value for Authorization header.
 func (d *Digest) Authenticate(username, password string) DigestAuth {
 	out := strings.Builder{}
-- 
2.43.0


From 8f11c160edb00c2eddf7ff02306ccfe1438e3231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:01 +0000
Subject: [PATCH 28/60] fix: ignore unknown directives of an authentication
 challenge

---
 net/rtsp/digest.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index 7a31ae9..d107265 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -79,8 +79,6 @@ func NewDigest(uri, challenge string) (*Digest, error) {
 				if len(vals) > 0 {
 					d.qop = strings.ToLower(vals[0])
 				}
-			default:
-				return nil, ErrAuthMalformedChallenge
 			}
 		}
 	}
-- 
2.43.0


From 314d6709ad7899e4aa6d1b9f034c76b54607850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:21 +0000
Subject: [PATCH 29/60] fix: choose a known quality of protection among those
 offered

---
 net/rtsp/digest.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index d107265..818fba2 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -75,9 +75,12 @@ func NewDigest(uri, challenge string) (*Digest, error) {
 			case "algorithm":
 				d.algorithm = strings.ToLower(val)
 			case "qop":
-				vals := strings.Split(val, ",")
-				if len(vals) > 0 {
-					d.qop = strings.ToLower(vals[0])
+				for _, v := range strings.Split(val, ",") {
+					v = strings.ToLower(strings.TrimSpace(v))
+					if v == "auth" || v == "auth-int" {
+						d.qop = v
+						break
+					}
 				}
 			}
 		}
-- 
2.43.0


From 13000210df48519e532c65a9e95b918acffbfc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 30/60] fix: count nonce use of successive digest responses

---
 net/rtsp/digest.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index 818fba2..79a973a 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -141,7 +141,9 @@ func (d *Digest) Authenticate(username, password string) DigestAuth {
 	auth := out.String()
 	d.Next()
 	return func(verb string, body []byte) string {
-		return auth + d.response(verb, body)
+		value := auth + d.response(verb, body)
+		d.Next()
+		return value
 	}
 }
 
-- 
2.43.0


From 88af0f022e9dd3b36129eb6e5e00a6d6ff7f872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:02 +0000
Subject: [PATCH 31/60] fix: keep the MD5-sess session key across digest
 responses

---
 net/rtsp/digest.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index 79a973a..d4374ff 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -154,6 +154,10 @@ func (d *Digest) Next() {
 	}
 	d.count++
 	d.nc = fmt.Sprintf("%08x", d.count)
+	if d.algorithm == "md5-sess" && d.cnonce != "" {
+		// Session key is bound to the first client nonce.
+		return
+	}
 	b := make([]byte, 8)
 	rand.Read(b)
 	d.cnonce = hex.EncodeToString(b)[:8]
@@ -170,8 +174,9 @@ func (d *Digest) response(verb string, body []byte) string {
 		out.WriteString(", response=\"")
 		out.WriteString(md5hex(colonnade(d.ha1, d.nonce, d.ha2)))
 	} else {
+		ha1 := d.ha1
 		if d.algorithm == "md5-sess" {
-			d.ha1 = md5hex(colonnade(d.ha1, d.nonce, d.cnonce))
+			ha1 = md5hex(colonnade(ha1, d.nonce, d.cnonce))
 		}
 		out.WriteString(", qop=\"")
 		out.WriteString(d.qop)
@@ -180,7 +185,7 @@ func (d *Digest) response(verb string, body []byte) string {
 		out.WriteString(", cnonce=\"")
 		out.WriteString(d.cnonce)
 		out.WriteString("\", response=\"")
-		out.WriteString(md5hex(colonnade(d.ha1, d.nonce, d.nc, d.cnonce, d.qop, d.ha2)))
+		out.WriteString(md5hex(colonnade(ha1, d.nonce, d.nc, d.cnonce, d.qop, d.ha2)))
 	}
 	out.WriteByte('"')
 	return out.String()
-- 
2.43.0


From b7a26ab7f8519da74463186d308faadd5e8def90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 32/60] fix: read frames and bodies of any length, across read
 timeouts

---
 net/rtsp/connection.go | 18 +++++++++++++-----
 net/rtsp/session.go    | 18 +++++++-----------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 2b296d7..7651eab 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -2,9 +2,11 @@ package rtsp
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/base64"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"math/rand"
 	"net"
 	"net/url"
@@ -165,13 +167,19 @@ func (c *Conn) ReadByte() (byte, error) {
 	return c.rdr.ReadByte()
 }
 
-// ReadBytes reads requested number of bytes, returning a slice containing the data.
+// ReadBytes reads requested number of bytes, however long they take to arrive,
+// returning a newly allocated slice containing the data.
 func (c *Conn) ReadBytes(n int) ([]byte, error) {
-	b, err := c.Peek(n)
-	if err == nil {
-		c.rdr.Discard(n)
+	buf := &bytes.Buffer{}
+	for buf.Len() < n {
+		if c.Timeout > 0 {
+			c.conn.SetReadDeadline(time.Now().Add(c.Timeout))
+		}
+		if _, err := io.CopyN(buf, c.rdr, int64(n-buf.Len())); err != nil && !isTimeoutOrTemp(err) {
+			return nil, err
+		}
 	}
-	return b, err
+	return buf.Bytes(), nil
 }
 
 // AddSink creates a listener on UDP port for RTP data or control channel.
diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 5384c06..2fa92bb 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -165,26 +165,22 @@ func (s *Session) KeepAlive() error {
 }
 
 func (s *Session) receive() error {
-	var ch byte
-	var buf []byte
 	b, err := s.Peek(1)
 	if err != nil {
 		return err
 	}
 	if b[0] == '$' {
-		s.Discard(1)
-		// RTSP allows for up to 8 transports so valid ch values are limited.
-		if ch, err = s.ReadByte(); err != nil {
+		// Leave the header in the buffer until it is complete.
+		if b, err = s.Peek(4); err != nil {
 			return err
 		}
-		length, err := s.ReadUint16()
-		if err != nil {
-			return err
-		}
-		buf, err = s.ReadBytes(int(length))
+		// RTSP allows for up to 8 transports so valid ch values are limited.
+		ch, length := b[1], be.Uint16(b[2:])
+		s.Discard(4)
+		buf, err := s.ReadBytes(int(length))
 		if err == nil {
 			select {
-			case s.Data <- RawPacket{Channel: ch, Payload: append([]byte{}, buf...)}:
+			case s.Data <- RawPacket{Channel: ch, Payload: buf}:
 			}
 		}
 		return err
-- 
2.43.0


From dee373bcbd8ed94b3bb69407e4608a9b6605b395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 33/60] fix: continue reading a response across read timeouts

---
 net/rtsp/message.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/net/rtsp/message.go b/net/rtsp/message.go
index 168021b..4d5b330 100644
--- a/net/rtsp/message.go
+++ b/net/rtsp/message.go
@@ -108,9 +108,24 @@ func (r *Request) Pack() []byte {
 	return buf.Bytes()
 }
 
+// readLine reads a line of a message that has begun to arrive, across read timeouts.
+func readLine(rdr *Conn) (string, error) {
+	line := ""
+	for {
+		part, err := rdr.ReadLine()
+		line += part
+		if err == nil || !isTimeoutOrTemp(err) {
+			return line, err
+		}
+	}
+}
+
 // Unpack RTSP message into response structure.
 func Unpack(rdr *Conn) (*Response, error) {
-	line, err := rdr.ReadLine()
+	if _, err := rdr.Peek(1); err != nil {
+		return nil, err
+	}
+	line, err := readLine(rdr)
 	if err != nil {
 		return nil, err
 	}
@@ -140,7 +155,7 @@ func Unpack(rdr *Conn) (*Response, error) {
 
 	// Parse the response headers.
 	for {
-		line, err = rdr.ReadLine()
+		line, err = readLine(rdr)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 37d7442c47d1b8d8395ab64adfdc432c4ffc36be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:45 +0000
Subject: [PATCH 34/60] fix: drop responses that match no outstanding request

---
 net/rtsp/session.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 2fa92bb..6dbb08b 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -223,8 +223,8 @@ func (s *Session) handleRtsp() (err error) {
 
 	req, ok := s.dequeue(rsp.Cseq)
 	if !ok {
-		// FIXME: Did not find matching request.  Maybe just drop response.
-		return errBadResponse
+		// Not a response to anything we are waiting for.
+		return nil
 	}
 
 	if rsp.StatusCode == RtspUnauthorized {
-- 
2.43.0


From 78b0fa7620efd96138145b0817679725968dcd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:17 +0000
Subject: [PATCH 35/60] fix: number, authorize and write concurrent requests
 one at a time; resend a challenged request with its own CSeq

---
 net/rtsp/session.go | 54 +++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 6dbb08b..edf15e1 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -67,14 +67,6 @@ func (s *Session) authorize(challenge string) error {
 	return nil
 }
 
-func (s *Session) enqueue(req *Request) {
-	s.Lock()
-	defer s.Unlock()
-	req.Cseq = s.cseq
-	req.Session = s.session
-	s.queue[req.Cseq] = req
-}
-
 func (s *Session) dequeue(seq int) (req *Request, ok bool) {
 	s.Lock()
 	defer s.Unlock()
@@ -86,26 +78,40 @@ func (s *Session) dequeue(seq int) (req *Request, ok bool) {
 }
 
 func (s *Session) command(verb, uri string, headers Headers) error {
+	_, err := s.request(verb, uri, headers)
+	return err
+}
+
+// request sends a new request and returns its sequence number.
+func (s *Session) request(verb, uri string, headers Headers) (int, error) {
 	if s.Conn == nil {
-		return errNoConnection
+		return 0, errNoConnection
 	}
 	req := &Request{Verb: verb, URI: uri, Header: make(MessageHeader)}
 	for key, value := range headers {
 		req.Header.Set(key, value)
 	}
+	s.Lock()
+	defer s.Unlock()
 	if s.auth != nil {
 		req.Auth = s.auth(req.Verb, nil)
 	}
 	s.cseq++
-	s.enqueue(req)
+	req.Cseq = s.cseq
+	return req.Cseq, s.transmit(req)
+}
+
+// transmit queues the request and writes it.  It is called with the session locked
+// so that requests are numbered, authorized, and written one after another.
+func (s *Session) transmit(req *Request) error {
+	req.Session = s.session
+	s.queue[req.Cseq] = req
 	buf := req.Pack()
 
 	log.Println(string(buf))
 
-	if _, err := s.Write(buf); err != nil {
-		return err
-	}
-	return nil
+	_, err := s.Write(buf)
+	return err
 }
 
 // Options handles client OPTIONS request in RTSP.
@@ -126,11 +132,11 @@ func (s *Session) Setup() error {
 		if !strings.HasPrefix(uri, "rtsp://") {
 			uri = s.BaseURI + "/" + uri
 		}
-		err := s.command(VerbSetup, uri, Headers{HeaderTransport: s.feeds[i].TransportHeader()})
+		cseq, err := s.request(VerbSetup, uri, Headers{HeaderTransport: s.feeds[i].TransportHeader()})
 		if err != nil {
 			return err
 		}
-		s.feeds[i].cseq = s.cseq
+		s.feeds[i].cseq = cseq
 	}
 	return nil
 }
@@ -228,25 +234,21 @@ func (s *Session) handleRtsp() (err error) {
 	}
 
 	if rsp.StatusCode == RtspUnauthorized {
+		s.Lock()
+		defer s.Unlock()
 		if err = s.authorize(rsp.Header.Get(HeaderAuthenticate)); err != nil {
 			return err
 		}
 		req.Auth = s.auth(req.Verb, nil)
-		// Treat this as retransmit of the same message.
-		// If the following line is uncommented, it will break matching responses to transport setup commands based on checking CSeq.
-		// s.cseq++
-		s.enqueue(req)
-		buf := req.Pack()
-
-		log.Println(string(buf))
-
-		_, err = s.Write(buf)
-		return err
+		// Treat this as retransmit of the same message, with the same CSeq.
+		return s.transmit(req)
 	}
 
 	if sess := rsp.Header.Get(HeaderSession); sess != "" {
 		if fields := strings.Split(sess, ";"); len(fields) > 0 {
+			s.Lock()
 			s.session = fields[0]
+			s.Unlock()
 		}
 	}
 
-- 
2.43.0


From f91af74628fc2fd0b1d86cfbad4687334e67a866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:17 +0000
Subject: [PATCH 36/60] fix: answer a challenge to the same request only once

---
 net/rtsp/definitions.go | 1 +
 net/rtsp/message.go     | 1 +
 net/rtsp/session.go     | 5 +++++
 3 files changed, 7 insertions(+)

diff --git a/net/rtsp/definitions.go b/net/rtsp/definitions.go
index eb5322c..6a8b129 100644
--- a/net/rtsp/definitions.go
+++ b/net/rtsp/definitions.go
@@ -129,6 +129,7 @@ var (
 	errInvalidStatus     = errors.New("Missing or malformed status code")
 	errNotSupported      = errors.New("Unsupported protocol version")
 	errNoCredentials     = errors.New("Resource URI has no credentials to perform authorization")
+	errUnauthorized      = errors.New("Credentials have been refused")
 	errOutOfMemory       = errors.New("Out of memory")
 	errBadResponse       = errors.New("Bad or unexpected response")
 	errNoConnection      = errors.New("Connection to RTSP source is required")
diff --git a/net/rtsp/message.go b/net/rtsp/message.go
index 4d5b330..57bc02f 100644
--- a/net/rtsp/message.go
+++ b/net/rtsp/message.go
@@ -22,6 +22,7 @@ type (
 		Auth    string
 		Session string
 		Header  MessageHeader
+		retried bool // Sent again in answer to a challenge.
 	}
 
 	// Response encapsulates RTSP response.  It is modeled by http.Response but includes only what is needed to handle RTSP.
diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index edf15e1..8d5c893 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -234,12 +234,17 @@ func (s *Session) handleRtsp() (err error) {
 	}
 
 	if rsp.StatusCode == RtspUnauthorized {
+		if req.retried {
+			// Our credentials have been refused.
+			return errUnauthorized
+		}
 		s.Lock()
 		defer s.Unlock()
 		if err = s.authorize(rsp.Header.Get(HeaderAuthenticate)); err != nil {
 			return err
 		}
 		req.Auth = s.auth(req.Verb, nil)
+		req.retried = true
 		// Treat this as retransmit of the same message, with the same CSeq.
 		return s.transmit(req)
 	}
-- 
2.43.0


From 54988a657c73c6a56bd1238ee4b0329ce955679c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:32 +0000
Subject: [PATCH 37/60] fix: never repeat a nonce count when a nonce is sent
 again

---
 net/rtsp/session.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 8d5c893..d9236cc 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -21,7 +21,8 @@ type (
 		stage   int        // Current stage.
 		State   chan int   // Stage signaller.
 		auth    DigestAuth // Callback function to calculate digest authentication for a given verb/method.
-		queue   Queue      // RTSP requests that we are waiting responses for
+		nonces  map[string]*Digest
+		queue   Queue // RTSP requests that we are waiting responses for
 		done    chan struct{}
 		session string
 		feeds   []*Feed
@@ -35,10 +36,11 @@ type (
 // NewSession returns new RTSP session manager.
 func NewSession() *Session {
 	return &Session{
-		State: make(chan int),
-		stage: StageInit,
-		queue: make(Queue),
-		verbs: make(map[string]struct{}, 11),
+		State:  make(chan int),
+		stage:  StageInit,
+		queue:  make(Queue),
+		nonces: make(map[string]*Digest),
+		verbs:  make(map[string]struct{}, 11),
 	}
 }
 
@@ -63,6 +65,11 @@ func (s *Session) authorize(challenge string) error {
 	}
 	username := s.URL.User.Username()
 	password, _ := s.URL.User.Password()
+	if used := s.nonces[digest.nonce]; used != nil && used.count > 0 {
+		// Keep counting for a nonce that the server has sent before.
+		digest.count = used.count - 1
+	}
+	s.nonces[digest.nonce] = digest
 	s.auth = digest.Authenticate(username, password)
 	return nil
 }
-- 
2.43.0


From 8fd6596b41b43b15b338c35a69a18a0bfbe4c528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 38/60] fix: report the end of a session that breaks off

---
 net/rtsp/session.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index d9236cc..dd676c1 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -51,8 +51,11 @@ func (s *Session) Open(uri string, proto int) error {
 		return err
 	}
 	s.Conn = conn
+	if err := s.Options(); err != nil {
+		return err
+	}
 	go s.process()
-	return s.Options()
+	return nil
 }
 
 func (s *Session) authorize(challenge string) error {
@@ -202,6 +205,11 @@ func (s *Session) receive() error {
 }
 
 func (s *Session) process() {
+	defer func() {
+		if s.stage != StageDone {
+			s.notify(StageDone)
+		}
+	}()
 	for {
 		select {
 		case <-s.done:
-- 
2.43.0


From b62547aea9d42e60d4adefafa25afc5ee28ce458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 39/60] fix: describe and set up the streams once, from a
 successful description only

---
 net/rtsp/session.go | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index dd676c1..a2781c6 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -18,18 +18,19 @@ type (
 	Session struct {
 		*Conn
 		sync.Mutex
-		stage   int        // Current stage.
-		State   chan int   // Stage signaller.
-		auth    DigestAuth // Callback function to calculate digest authentication for a given verb/method.
-		nonces  map[string]*Digest
-		queue   Queue // RTSP requests that we are waiting responses for
-		done    chan struct{}
-		session string
-		feeds   []*Feed
-		feedidx int
-		verbs   map[string]struct{}
-		last    time.Time
-		cseq    int
+		stage     int        // Current stage.
+		State     chan int   // Stage signaller.
+		auth      DigestAuth // Callback function to calculate digest authentication for a given verb/method.
+		nonces    map[string]*Digest
+		queue     Queue // RTSP requests that we are waiting responses for
+		done      chan struct{}
+		session   string
+		feeds     []*Feed
+		feedidx   int
+		described bool // DESCRIBE has been sent
+		verbs     map[string]struct{}
+		last      time.Time
+		cseq      int
 	}
 )
 
@@ -274,14 +275,15 @@ func (s *Session) handleRtsp() (err error) {
 
 	switch req.Verb {
 	case VerbOptions:
-		if s.stage == StageInit {
+		if s.stage == StageInit && !s.described {
+			s.described = true
 			for _, v := range strings.Split(rsp.Header.Get(HeaderPublic), ", ") {
 				s.verbs[v] = struct{}{}
 			}
 			return s.Describe()
 		}
 	case VerbDescribe:
-		if rsp.Body != nil {
+		if rsp.StatusCode == RtspOK && rsp.Body != nil && s.feeds == nil {
 			if s.feeds, err = ParseFeeds(s.Proto, rsp.Body); err != nil {
 				return err
 			}
-- 
2.43.0


From 6b3c0631440f3decb4cf760dda06fa7f444e0982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 40/60] fix: a bad sprop parameter set does not fail the setup
 of its stream

---
 net/rtsp/feed.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/net/rtsp/feed.go b/net/rtsp/feed.go
index d6e30a0..3763c63 100644
--- a/net/rtsp/feed.go
+++ b/net/rtsp/feed.go
@@ -35,11 +35,9 @@ func (f *Feed) TransportSetup(value string) error {
 	if err := f.transp.Parse(value); err != nil {
 		return err
 	}
-	// Parse sprop parameter sets from the SDP.
+	// Parse sprop parameter sets from the SDP.  They may come in band as well, so bad ones do not prevent playing.
 	for _, b := range f.SpropParameterSets {
-		if err := f.Sets.ParseSprop(b); err != nil {
-			return err
-		}
+		f.Sets.ParseSprop(b)
 	}
 	f.IsSet = true
 	return nil
-- 
2.43.0


From e9a557c7edadc6b076faa6cf2b381bf2f6f3dbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 41/60] fix: keep-alive carries the current session, or none
 before it is assigned

---
 net/rtsp/message.go | 15 ++++++++-------
 net/rtsp/session.go | 10 +++++++++-
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/net/rtsp/message.go b/net/rtsp/message.go
index 57bc02f..496437d 100644
--- a/net/rtsp/message.go
+++ b/net/rtsp/message.go
@@ -16,13 +16,14 @@ type (
 
 	// Request encapsulates verb, uri, and headers for RTSP command.
 	Request struct {
-		Verb    string
-		Cseq    int
-		URI     string
-		Auth    string
-		Session string
-		Header  MessageHeader
-		retried bool // Sent again in answer to a challenge.
+		Verb      string
+		Cseq      int
+		URI       string
+		Auth      string
+		Session   string
+		Header    MessageHeader
+		retried   bool // Sent again in answer to a challenge.
+		keepalive bool // OPTIONS to keep the session alive, carries the session.
 	}
 
 	// Response encapsulates RTSP response.  It is modeled by http.Response but includes only what is needed to handle RTSP.
diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index a2781c6..d492a1d 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -102,6 +102,10 @@ func (s *Session) request(verb, uri string, headers Headers) (int, error) {
 	for key, value := range headers {
 		req.Header.Set(key, value)
 	}
+	return s.send(req)
+}
+
+func (s *Session) send(req *Request) (int, error) {
 	s.Lock()
 	defer s.Unlock()
 	if s.auth != nil {
@@ -116,6 +120,9 @@ func (s *Session) request(verb, uri string, headers Headers) (int, error) {
 // so that requests are numbered, authorized, and written one after another.
 func (s *Session) transmit(req *Request) error {
 	req.Session = s.session
+	if req.keepalive && s.session != "" {
+		req.Header.Set(HeaderSession, s.session)
+	}
 	s.queue[req.Cseq] = req
 	buf := req.Pack()
 
@@ -175,7 +182,8 @@ func (s *Session) KeepAlive() error {
 		if s.last.IsZero() || time.Now().Sub(s.last) >= keepAliveTimeout {
 			s.last = time.Now()
 			// OPTIONS without session might not keep session alive.  GET_PARAMETER may be unsupported by the server.  Check verbs.
-			return s.command(VerbOptions, s.BaseURI, Headers{HeaderSession: s.session})
+			_, err := s.send(&Request{Verb: VerbOptions, URI: s.BaseURI, Header: make(MessageHeader), keepalive: true})
+			return err
 		}
 	}
 	return nil
-- 
2.43.0


From f4990eed17451968040ba8f5103a226f12fd5d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:30 +0000
Subject: [PATCH 42/60] fix: listen on the advertised client ports and number
 channels by stream

---
 net/rtsp/session.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index d492a1d..c731367 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -318,18 +318,23 @@ func (s *Session) handleRtsp() (err error) {
 
 func (s *Session) handleSetup(rsp *Response) (err error) {
 	if rsp.StatusCode == RtspOK {
-		for _, f := range s.feeds {
+		for i, f := range s.feeds {
 			if f.cseq == rsp.Cseq {
 				s.feedidx++
+				// Listen on the ports that we have asked for.
+				ports := f.transp.ClientPort
 				if err = f.TransportSetup(rsp.Header.Get(HeaderTransport)); err != nil {
 					return err
 				}
 				if !f.transp.IsTCP {
-					ch := byte(s.feedidx) * 2
-					if err := s.AddSink(ch, f.transp.Port.One); err != nil {
+					if f.transp.IsMulticast {
+						ports = f.transp.Port
+					}
+					ch := byte(i) * 2
+					if err := s.AddSink(ch, ports.One); err != nil {
 						return err
 					}
-					if err := s.AddSink(ch+1, f.transp.Port.Two); err != nil {
+					if err := s.AddSink(ch+1, ports.Two); err != nil {
 						return err
 					}
 				}
-- 
2.43.0


From 40ef63f0a1bfe217e5f233a9c4e1c389e38114da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:30 +0000
Subject: [PATCH 43/60] fix: listen for media on the local address of the
 connection

---
 net/rtsp/connection.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 7651eab..a4577c2 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -185,13 +185,15 @@ func (c *Conn) ReadBytes(n int) ([]byte, error) {
 // AddSink creates a listener on UDP port for RTP data or control channel.
 func (c *Conn) AddSink(ch byte, port int) error {
 	if c.addr == nil {
-		var err error
-		if c.addr, err = net.ResolveIPAddr("ip", "127.0.0.1"); err != nil {
-			return err
+		// Media comes to the address that we talk from.
+		local, ok := c.conn.LocalAddr().(*net.TCPAddr)
+		if !ok {
+			return errNoConnection
 		}
+		c.addr = &net.IPAddr{IP: local.IP, Zone: local.Zone}
 	}
 
-	conn, err := net.ListenUDP("udp", &net.UDPAddr{IP: c.addr.IP, Port: port, Zone: ""})
+	conn, err := net.ListenUDP("udp", &net.UDPAddr{IP: c.addr.IP, Port: port, Zone: c.addr.Zone})
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From bc80a81b8ca64ca20a3aef9d8d441449c96c8eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 44/60] fix: UDP listeners deliver datagrams of any size and
 stop without blocking

---
 net/rtsp/connection.go | 23 ++++++++++++-----------
 net/rtsp/session.go    |  2 +-
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index a4577c2..25ad7e9 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -10,6 +10,7 @@ import (
 	"math/rand"
 	"net"
 	"net/url"
+	"sync"
 	"time"
 )
 
@@ -30,6 +31,7 @@ type (
 		BaseURI   string      // Formatted URI without user credentials.
 		addr      *net.IPAddr // Local address for UDP listeners
 		sinks     []udpsink   // UDP listeners, 2 per media stream: data and control
+		readers   sync.WaitGroup
 	}
 
 	// Maintains UDP connection for RTP and RTCP channel pair.
@@ -210,34 +212,33 @@ func (c *Conn) AddSink(ch byte, port int) error {
 func (c *Conn) Start() {
 	for _, s := range c.sinks {
 		fmt.Printf("Reading from UDP sink %d", s.ch)
+		c.readers.Add(1)
 		go func(sink udpsink) {
-			var buf [2048]byte
+			defer c.readers.Done()
+			var buf [65536]byte
 			for {
-				select {
-				case <-sink.done:
-					break
-				}
 				n, _, err := sink.ReadFromUDP(buf[:])
 				if err == nil {
 					select {
 					case c.Data <- RawPacket{Channel: sink.ch, Payload: append([]byte{}, buf[:n]...)}:
+					case <-sink.done:
+						return
 					}
 				} else if !isTimeoutOrTemp(err) {
-					break
+					return
 				}
 			}
-			sink.Close()
 			// TODO: Notify caller about closed connection.
 		}(s)
 	}
 }
 
-// Stop tells all UDP listeners to suspend processing and close.  The list of listerners is reset.
+// Stop closes all UDP listeners and waits until they have finished.  The list of listerners is reset.
 func (c *Conn) Stop() {
 	for _, sink := range c.sinks {
-		select {
-		case sink.done <- 1:
-		}
+		close(sink.done)
+		sink.Close()
 	}
 	c.sinks = c.sinks[:0]
+	c.readers.Wait()
 }
diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index c731367..87d42ad 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -345,8 +345,8 @@ func (s *Session) handleSetup(rsp *Response) (err error) {
 		s.feedidx++
 	}
 	if s.feedidx >= len(s.feeds) {
-		s.notify(StageReady)
 		s.Start()
+		s.notify(StageReady)
 	}
 	return
 }
-- 
2.43.0


From 97d63c7b4df5104693b1ada51c928321f9c6190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 45/60] fix: open the POST connection of RTSP over HTTP

---
 net/rtsp/connection.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 25ad7e9..cc11a1e 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -96,10 +96,17 @@ func Dial(uri string, proto int) (*Conn, error) {
 		// Issue GET and read response.  Afterwards we'll be getting incoming RTSP/RTP/RTCP responses in a stream.
 		cmd := ConnectHTTP("GET", c.BaseURI, c.guid)
 		if _, err := c.conn.Write(cmd); err != nil {
+			c.conn.Close()
 			return nil, err
 		}
 		// Read response but only headers and prepare to receive content stream of unknown length.
 		if err := ReceiveHTTP(c); err != nil {
+			c.conn.Close()
+			return nil, err
+		}
+		// Requests go over a second connection.
+		if c.post, err = net.DialTCP("tcp", nil, addr); err != nil {
+			c.conn.Close()
 			return nil, err
 		}
 	}
@@ -121,8 +128,10 @@ func (c *Conn) Write(p []byte) (n int, err error) {
 			c.connected = true
 		}
 		w := base64.NewEncoder(base64.StdEncoding, c.post)
-		defer w.Close()
-		return w.Write(p)
+		if n, err = w.Write(p); err == nil {
+			err = w.Close()
+		}
+		return n, err
 	}
 	if c.Timeout > 0 {
 		c.conn.SetWriteDeadline(time.Now().Add(c.Timeout))
-- 
2.43.0


From 2c232c9ed525fca58be561665dc518c55647f26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 46/60] fix: opening fails when the GET of RTSP over HTTP is
 refused

---
 net/rtsp/http.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/http.go b/net/rtsp/http.go
index 3588425..c44d75c 100644
--- a/net/rtsp/http.go
+++ b/net/rtsp/http.go
@@ -70,7 +70,9 @@ func ReceiveHTTP(rdr *Conn) error {
 	if err != nil || statusCode < 0 {
 		return errInvalidStatus
 	}
-	// TODO: Verify expected 200 status.
+	if statusCode != 200 {
+		return errBadResponse
+	}
 
 	// Parse the response headers.
 	for {
-- 
2.43.0


From 01b549d41d48ff51d374d918b55a979f07f6807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:48 +0000
Subject: [PATCH 47/60] fix: accept HTTP/1.1 answers to the GET of RTSP over
 HTTP

---
 net/rtsp/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/rtsp/http.go b/net/rtsp/http.go
index c44d75c..0d01421 100644
--- a/net/rtsp/http.go
+++ b/net/rtsp/http.go
@@ -56,7 +56,7 @@ func ReceiveHTTP(rdr *Conn) error {
 	if i == -1 {
 		return errMalformedResponse
 	}
-	if line[:i] != "HTTP/1.0" {
+	if line[:i] != "HTTP/1.0" && line[:i] != "HTTP/1.1" {
 		return errNotSupported
 	}
 	status := strings.TrimSpace(line[i+1:])
-- 
2.43.0


From 173a5c2e8d06d07573631439d9968cfb6caa7e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 48/60] fix: join header values continued on further lines

---
 net/rtsp/message.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/message.go b/net/rtsp/message.go
index 496437d..3df1797 100644
--- a/net/rtsp/message.go
+++ b/net/rtsp/message.go
@@ -156,19 +156,27 @@ func Unpack(rdr *Conn) (*Response, error) {
 	}
 
 	// Parse the response headers.
+	key := ""
 	for {
 		line, err = readLine(rdr)
 		if err != nil {
 			return nil, err
 		}
+		folded := line[0] == ' ' || line[0] == '\t'
 		if line = strings.TrimSpace(line); line == "" {
 			break
 		}
+		if folded && key != "" {
+			// Continuation of the value on the line before.
+			r.Header.Set(key, strings.TrimSpace(r.Header.Get(key)+" "+line))
+			continue
+		}
 		keyval := strings.SplitN(line, ":", 2)
 		if len(keyval) != 2 {
 			return nil, errMalformedResponse
 		}
-		r.Header.Set(strings.TrimSpace(keyval[0]), strings.TrimSpace(keyval[1]))
+		key = strings.TrimSpace(keyval[0])
+		r.Header.Set(key, strings.TrimSpace(keyval[1]))
 	}
 
 	r.Cseq, _ = strconv.Atoi(r.Header.Get(HeaderCSeq))
-- 
2.43.0


From baaa2d5b2ea09004bc207d18e531ec17bc0e7aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 49/60] fix: refuse a status code with a sign

---
 net/rtsp/message.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/net/rtsp/message.go b/net/rtsp/message.go
index 3df1797..dec7226 100644
--- a/net/rtsp/message.go
+++ b/net/rtsp/message.go
@@ -150,10 +150,11 @@ func Unpack(rdr *Conn) (*Response, error) {
 	if len(statusCode) != 3 {
 		return nil, errInvalidStatus
 	}
-	r.StatusCode, err = strconv.Atoi(statusCode)
-	if err != nil || r.StatusCode < 0 {
+	code, err := strconv.ParseUint(statusCode, 10, 16) // Digits only, no sign.
+	if err != nil {
 		return nil, errInvalidStatus
 	}
+	r.StatusCode = int(code)
 
 	// Parse the response headers.
 	key := ""
-- 
2.43.0


From df8df86b57d7f15085c4d37ed0dc4f5fc29abba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 50/60] fix: damaged media packets do not end the ouro command

---
 cmd/ouro/main.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/ouro/main.go b/cmd/ouro/main.go
index 6f6afa7..c238d84 100644
--- a/cmd/ouro/main.go
+++ b/cmd/ouro/main.go
@@ -58,8 +58,9 @@ func handleStates(s *rtsp.Session) {
 				var p *rtp.Packet
 				var err error
 				if p, err = rtp.Unpack(pkt.Payload); err != nil {
+					// Skip the damaged packet.
 					log.Println(err)
-					return
+					continue
 				}
 			
 				log.Printf("RTP [%d] PT=%d, CC=%d, M=%t, SN=%d\r\n", pkt.Channel, p.PT(), p.CC(), p.M(), p.SN)
@@ -70,7 +71,7 @@ func handleStates(s *rtsp.Session) {
 					if err != nil {
 						log.Println(err)
 						// log.Println(hex.Dump(buf))
-						return
+						continue
 					}
 					for _, nal := range nalsink.Units {
 						log.Printf("NAL Zero=%t, RefIdc=%d, Type=%d, Size=%d\r\n", nal.ZeroBit(), nal.RefIdc(), nal.Type(), len(nal.Data))
@@ -85,7 +86,7 @@ func handleStates(s *rtsp.Session) {
 				if p, err = rtcp.Unpack(pkt.Payload); err != nil {
 					log.Println(err)
 					// log.Panicln(hex.Dump(pkt.Payload))
-					return
+					continue
 				}
 			
 				log.Printf("RTCP [%d] PT=%d, LN=%d, C=%d\r\n", pkt.Channel, p.PT, p.LN, p.C())
-- 
2.43.0


From 2a1c91b4b9a2f12b2d4b0651866bb0ec6e6254b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 51/60] fix: join continued header lines without copying the
 value for each

---
 net/rtsp/message.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/net/rtsp/message.go b/net/rtsp/message.go
index dec7226..37a67a8 100644
--- a/net/rtsp/message.go
+++ b/net/rtsp/message.go
@@ -158,26 +158,31 @@ func Unpack(rdr *Conn) (*Response, error) {
 
 	// Parse the response headers.
 	key := ""
+	var value []string // Lines of the value.
 	for {
 		line, err = readLine(rdr)
 		if err != nil {
 			return nil, err
 		}
 		folded := line[0] == ' ' || line[0] == '\t'
-		if line = strings.TrimSpace(line); line == "" {
-			break
-		}
-		if folded && key != "" {
+		line = strings.TrimSpace(line)
+		if line != "" && folded && key != "" {
 			// Continuation of the value on the line before.
-			r.Header.Set(key, strings.TrimSpace(r.Header.Get(key)+" "+line))
+			value = append(value, line)
 			continue
 		}
+		if key != "" {
+			r.Header.Set(key, strings.TrimSpace(strings.Join(value, " ")))
+		}
+		if line == "" {
+			break
+		}
 		keyval := strings.SplitN(line, ":", 2)
 		if len(keyval) != 2 {
 			return nil, errMalformedResponse
 		}
 		key = strings.TrimSpace(keyval[0])
-		r.Header.Set(key, strings.TrimSpace(keyval[1]))
+		value = []string{strings.TrimSpace(keyval[1])}
 	}
 
 	r.Cseq, _ = strconv.Atoi(r.Header.Get(HeaderCSeq))
-- 
2.43.0


From 7f1e04a7429df0c928c8a7ef993e4319d2b3450c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 52/60] fix: no line end after the body of a packed response,
 the next message begins there

---
 net/rtsp/message.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/net/rtsp/message.go b/net/rtsp/message.go
index 37a67a8..2071f3e 100644
--- a/net/rtsp/message.go
+++ b/net/rtsp/message.go
@@ -216,7 +216,6 @@ func (r Response) Pack() []byte {
 	buf.Write(crnl)
 	if r.ContentLength > 0 {
 		buf.Write(r.Body)
-		buf.Write(crnl)
 	}
 	return buf.Bytes()
 }
-- 
2.43.0


From 014be3443707e3e02e09bab20984ad49f7b6653b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:41 +0000
Subject: [PATCH 53/60] fix: Discard waits for the read timeout from its own
 start

---
 net/rtsp/connection.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index cc11a1e..2d887a6 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -167,6 +167,9 @@ func (c *Conn) ReadUint16() (data uint16, err error) {
 
 // Discard skips the next n bytes, returning the number of bytes discarded.
 func (c *Conn) Discard(n int) (discarded int, err error) {
+	if c.Timeout > 0 {
+		c.conn.SetReadDeadline(time.Now().Add(c.Timeout))
+	}
 	return c.rdr.Discard(n)
 }
 
-- 
2.43.0


From 8916c81ad2ef8c436707c7c3e99a544a9a60a603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:38 +0000
Subject: [PATCH 54/60] fix: a late answer does not take a session out of Done

---
 net/rtsp/session.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 87d42ad..67cfd37 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -237,7 +237,10 @@ func (s *Session) process() {
 
 // Notify about stage change.
 func (s *Session) notify(stage int) {
-	s.stage = stage
+	if s.stage != StageDone {
+		// The answer to an earlier command may arrive after the session is done.
+		s.stage = stage
+	}
 	select {
 	case s.State <- stage:
 	}
-- 
2.43.0


From 8dba3df54f0ca461f3244602e85bd0051bebe99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:36 +0000
Subject: [PATCH 55/60] fix: numbers in transport headers are digits only

---
 net/rtsp/transport.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/net/rtsp/transport.go b/net/rtsp/transport.go
index 9fafcce..76789d0 100644
--- a/net/rtsp/transport.go
+++ b/net/rtsp/transport.go
@@ -192,13 +192,13 @@ func (t *Transport) Parse(value string) (err error) {
 			t.IsAppend = true
 		case "layers":
 			if len(keyval) > 1 {
-				t.Layers, err = strconv.Atoi(keyval[1])
+				t.Layers, err = parseNumber(keyval[1])
 			} else {
 				err = ErrMalformedTransport
 			}
 		case "ttl":
 			if len(keyval) > 1 {
-				t.TTL, err = strconv.Atoi(keyval[1])
+				t.TTL, err = parseNumber(keyval[1])
 			} else {
 				err = ErrMalformedTransport
 			}
@@ -240,12 +240,18 @@ func (t *Transport) Parse(value string) (err error) {
 	return
 }
 
+// parseNumber parses a number, which is digits only, without a sign.
+func parseNumber(val string) (int, error) {
+	n, err := strconv.ParseUint(val, 10, 31)
+	return int(n), err
+}
+
 // ParsePair parses a pair of channels or ports in transport header.
 func ParsePair(val string) (p Pair, err error) {
-	parts := strings.Split(val, "-")
-	p.One, err = strconv.Atoi(parts[0])
+	parts := strings.SplitN(val, "-", 2)
+	p.One, err = parseNumber(parts[0])
 	if err == nil && len(parts) > 1 {
-		p.Two, err = strconv.Atoi(parts[1])
+		p.Two, err = parseNumber(parts[1])
 		if err != nil {
 			p.Two = p.One + 1
 		}
-- 
2.43.0


From b4316a421925997c132ea82fc17e8b7c712b478c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 56/60] fix: blanks around the parameters of a transport header
 do not count

---
 net/rtsp/transport.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/transport.go b/net/rtsp/transport.go
index 76789d0..3130d60 100644
--- a/net/rtsp/transport.go
+++ b/net/rtsp/transport.go
@@ -159,12 +159,15 @@ func (t Transport) String() string {
 func (t *Transport) Parse(value string) (err error) {
 	fields := strings.Split(value, ";")
 	for i, field := range fields {
-		keyval := strings.Split(field, "/")
+		keyval := strings.Split(strings.TrimSpace(field), "/")
 		if i == 0 && len(keyval) == 3 {
 			// Third part is lower protocol TCP/UDP
 			t.IsTCP = strings.ToUpper(keyval[2]) == "TCP"
 		}
 		keyval = strings.SplitN(field, "=", 2)
+		for j := range keyval {
+			keyval[j] = strings.TrimSpace(keyval[j])
+		}
 		switch strings.ToLower(keyval[0]) {
 		case "unicast":
 			t.IsMulticast = false
-- 
2.43.0


From 88cfb976a76e381319d9e301f201a80eb4dcdef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 57/60] fix: quotes around the mode of a transport are not part
 of it

---
 net/rtsp/transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/rtsp/transport.go b/net/rtsp/transport.go
index 3130d60..541cbd0 100644
--- a/net/rtsp/transport.go
+++ b/net/rtsp/transport.go
@@ -231,7 +231,7 @@ func (t *Transport) Parse(value string) (err error) {
 			}
 		case "mode":
 			if len(keyval) > 1 {
-				t.Mode = keyval[1]
+				t.Mode = strings.Trim(keyval[1], "\"")
 			} else {
 				err = ErrMalformedTransport
 			}
-- 
2.43.0


From ae2b53b7d644035336c0e079db8e90237f619e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 58/60] fix: no empty path segment between a base ending in a
 slash and a control

---
 net/rtsp/session.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 67cfd37..bdd8e77 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -148,7 +148,7 @@ func (s *Session) Setup() error {
 		// Setup is done on a different URI that accounts for Control in media.
 		uri := s.feeds[i].Control
 		if !strings.HasPrefix(uri, "rtsp://") {
-			uri = s.BaseURI + "/" + uri
+			uri = strings.TrimSuffix(s.BaseURI, "/") + "/" + uri
 		}
 		cseq, err := s.request(VerbSetup, uri, Headers{HeaderTransport: s.feeds[i].TransportHeader()})
 		if err != nil {
-- 
2.43.0


From 4f27c192016e4a29f19ecc72a272ace5ba3e27a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 59/60] fix: a provisional response leaves its request
 outstanding

---
 net/rtsp/session.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index bdd8e77..d3f5788 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -254,6 +254,11 @@ func (s *Session) handleRtsp() (err error) {
 
 	log.Println(string(rsp.Pack()))
 
+	if rsp.StatusCode < 200 {
+		// Provisional, the answer is still to come.
+		return nil
+	}
+
 	req, ok := s.dequeue(rsp.Cseq)
 	if !ok {
 		// Not a response to anything we are waiting for.
-- 
2.43.0


From fa9b6f719e7972b7d6f727c473b1cf6441b1c397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 60/60] fix: a header without a name is malformed

---
 net/rtsp/http.go    | 2 +-
 net/rtsp/message.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/http.go b/net/rtsp/http.go
index 0d01421..0a51981 100644
--- a/net/rtsp/http.go
+++ b/net/rtsp/http.go
@@ -84,7 +84,7 @@ func ReceiveHTTP(rdr *Conn) error {
 			break
 		}
 		keyval := strings.SplitN(line, ":", 2)
-		if len(keyval) != 2 {
+		if len(keyval) != 2 || strings.TrimSpace(keyval[0]) == "" {
 			return errMalformedResponse
 		}
 		// TODO: Verify some of the response headers.
diff --git a/net/rtsp/message.go b/net/rtsp/message.go
index 2071f3e..eddd5b2 100644
--- a/net/rtsp/message.go
+++ b/net/rtsp/message.go
@@ -182,6 +182,9 @@ func Unpack(rdr *Conn) (*Response, error) {
 			return nil, errMalformedResponse
 		}
 		key = strings.TrimSpace(keyval[0])
+		if key == "" {
+			return nil, errMalformedResponse
+		}
 		value = []string{strings.TrimSpace(keyval[1])}
 	}
 
-- 
2.43.0

