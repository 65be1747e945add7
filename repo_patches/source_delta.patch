From 3ecd3f773cf9e65431bfb52265883a67b6d1872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:56 +0000
Subject: [PATCH 01/40] fix: short repeat runs keep zero bytes of the repeated
 value

Only leading zero bytes may be left out, and a repeated 0 still takes one
byte; 0x0100 was written as the single byte 01 and 0 as no byte at all.
---
 orc/encoding/int.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index ee091f4..9203e1c 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -1111,7 +1111,8 @@ func writeShortRepeat(count int, x uint64, out *bytes.Buffer) error {
 	bb.Reset()
 	for j := 7; j >= 0; j-- { //
 		b := byte(x >> uint(8*j))
-		if b != 0x00 {
+		// only leading zeros are left out, and at least 1 byte is written
+		if b != 0x00 || bb.Len() != 0 || j == 0 {
 			if byte(j) > w { // [1, 8]
 				w = byte(j)
 			}
-- 
2.43.0


From 278a23ce333466b27dbdfe7f8a13417a5662400a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:59 +0000
Subject: [PATCH 02/40] fix: delta runs with zero deltas or 12 bit deltas are
 encoded

A run such as 1,2,2,2 was written with width 0, which means a fixed delta,
and deltas needing 12 bits were refused with an error.
---
 orc/encoding/int.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 9203e1c..ef6ba6c 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -891,6 +891,12 @@ func writeDelta(out *bytes.Buffer, first []byte, deltaBase int64, length uint16,
 	if width == 1 { // delta width no 1?
 		width = 2
 	}
+	if width == 0 && len(deltas) != 0 { // width 0 means fixed delta, not all zero deltas
+		width = 2
+	}
+	if width == 12 { // deltas are written in whole bytes
+		width = 16
+	}
 	w, err := widthEncoding(int(width))
 	if err != nil {
 		return errors.WithStack(err)
-- 
2.43.0


From 728e31f34fd7debec7e6e8db0714e39e60ce2683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:01 +0000
Subject: [PATCH 03/40] fix: fixed delta runs are decoded as a ramp

With width 0 every value is the one before it plus the delta base; the
decoder repeated the second value instead.
---
 orc/encoding/int.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index ef6ba6c..54a19f7 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -166,13 +166,14 @@ func (d *intRLV2Decoder) decode(in BufferedReader) error {
 		d.forgetBits()
 		for i := 2; i < length; i++ {
 			if width == 0 { //fixed delta
+				prev := d.uvs[len(d.uvs)-1]
 				if d.signed {
-					d.uvs = append(d.uvs, Zigzag(base+deltaBase))
+					d.uvs = append(d.uvs, Zigzag(UnZigzag(prev)+deltaBase))
 				} else {
 					if deltaBase >= 0 {
-						d.uvs = append(d.uvs, ubase+uint64(deltaBase))
+						d.uvs = append(d.uvs, prev+uint64(deltaBase))
 					} else {
-						d.uvs = append(d.uvs, ubase-uint64(-deltaBase))
+						d.uvs = append(d.uvs, prev-uint64(-deltaBase))
 					}
 				}
 			} else {
-- 
2.43.0


From 2a893e2741d59222de45e98b0a766f997c6ebb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:16 +0000
Subject: [PATCH 04/40] fix: integer run encoder no longer panics on values
 needing 9 or 10 varint bytes

---
 orc/encoding/int.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 54a19f7..8a82440 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -443,7 +443,7 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 			} else {
 
 				// fixed delta 0
-				b := make([]byte, 8)
+				b := make([]byte, binary.MaxVarintLen64)
 				var n int
 				if e.signed {
 					n = binary.PutVarint(b, UnZigzag(e.values[0]))
@@ -461,7 +461,7 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 			// delta, need width should be stable?
 			dv := &deltaValues{}
 			if tryDeltaEncoding(e.signed, e.values, dv) {
-				b := make([]byte, 8)
+				b := make([]byte, binary.MaxVarintLen64)
 				var n int
 				if e.signed {
 					n = binary.PutVarint(b, UnZigzag(e.values[0]))
@@ -917,7 +917,7 @@ func writeDelta(out *bytes.Buffer, first []byte, deltaBase int64, length uint16,
 		return errors.WithStack(err)
 	}
 	// write delta base
-	db := make([]byte, 8)
+	db := make([]byte, binary.MaxVarintLen64)
 	n := binary.PutVarint(db, deltaBase)
 	if _, err := out.Write(db[:n]); err != nil {
 		return errors.WithStack(err)
-- 
2.43.0


From 1465654cbb64bdcddd0b6e23c0d48e2198661a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:20 +0000
Subject: [PATCH 05/40] fix: a full window that is neither a delta nor a patch
 is written directly

Nothing was written when 512 values had no repeats, ramp or patch, so the
window grew beyond 512 values and its length no longer fitted the header.
---
 orc/encoding/int.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 8a82440..1c480b6 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -459,6 +459,7 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 		} else {
 
 			// delta, need width should be stable?
+			encoded := false
 			dv := &deltaValues{}
 			if tryDeltaEncoding(e.signed, e.values, dv) {
 				b := make([]byte, binary.MaxVarintLen64)
@@ -473,6 +474,7 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 				}
 
 				e.values = e.values[dv.length:]
+				encoded = true
 
 			} else { // try patch
 				var pvs patchedValues
@@ -482,12 +484,13 @@ func (e *intRLV2Encoder) write(out *bytes.Buffer, toEnd bool) error {
 							return err
 						}
 						e.values = e.values[pvs.count:]
+						encoded = true
 					}
 				}
 			}
 
 			// rethink: rest all will be direct ?
-			if toEnd && len(e.values) != 0 {
+			if (toEnd || !encoded) && len(e.values) != 0 {
 				if err := e.writeDirect(out, true); err != nil {
 					return err
 				}
-- 
2.43.0


From f5cca6574ade49cb2033922d477f67cf04d1e428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:21 +0000
Subject: [PATCH 06/40] fix: patched runs use encodable widths and fall back
 when they cannot be encoded

The value, patch and gap widths were not rounded to what the header can
express (0, 22, 23, 25, 27, 29, 31 bits and more were refused or corrupted),
more than 31 patches panicked, and the smallest int64 as base lost its sign.
---
 orc/encoding/int.go | 71 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 55 insertions(+), 16 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 1c480b6..a4e47df 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -657,6 +657,28 @@ type patchedValues struct {
 	patches []uint64 // patch values, already shifted valuebits
 }
 
+// patch gap bits width, 1 to 8
+func (pvs *patchedValues) gapWidth() int {
+	pgw := 1
+	for _, g := range pvs.gaps {
+		if w := getBitsWidth(uint64(g)); w > pgw {
+			pgw = w
+		}
+	}
+	return pgw
+}
+
+// patch bits width according to table, 1 to 64
+func (pvs *patchedValues) patchWidth() int {
+	var pw int
+	for _, p := range pvs.patches {
+		if w := getBitsWidth(p); w > pw {
+			pw = w
+		}
+	}
+	return getClosestFixedBits(pw)
+}
+
 // analyze bit widths, if return encoding Patch then fill the patchValues, else return encoding Direct
 // todo: patch 0
 // todo: try how many values to determine patch
@@ -722,6 +744,8 @@ func tryPatch(values []uint64, pvs *patchedValues) bool {
 		}
 	}
 
+	w = byte(getClosestFixedBits(int(w))) // values are written with an encodable width
+
 	logger.Tracef("int rl v2 try patch, 90%% width %d and width %d of adjusted values", w, width)
 	if width > w {
 		pvs.base = base
@@ -749,8 +773,15 @@ func tryPatch(values []uint64, pvs *patchedValues) bool {
 			}
 		}
 		if len(pvs.patches) > 31 {
-			// fixme: how to handle this
-			panic("patches max 31")
+			// patch list length has 5 bits
+			return false
+		}
+		if base == math.MinInt64 {
+			// base value has no room for its negative mark
+			return false
+		}
+		if pvs.gapWidth()+pvs.patchWidth() > 64 {
+			return false
 		}
 
 		logger.Tracef("int rl v2 will do PATCH %d values", pvs.count)
@@ -796,13 +827,7 @@ func (e *intRLV2Encoder) writePatch(pvs *patchedValues, out *bytes.Buffer) error
 	header[2] = (bw - 1) << 5                                // 3bits for 1 to 8 bytes
 
 	// 5 bits for PW (patch width) (1 to 64 bits)
-	var patchWidth int
-	for _, p := range pvs.patches {
-		patchWidth_ := getBitsWidth(p)
-		if patchWidth_ > patchWidth {
-			patchWidth = patchWidth_
-		}
-	}
+	patchWidth := pvs.patchWidth()
 	pw, err := widthEncoding(patchWidth)
 	if err != nil {
 		return errors.WithStack(err)
@@ -811,13 +836,7 @@ func (e *intRLV2Encoder) writePatch(pvs *patchedValues, out *bytes.Buffer) error
 
 	// 3 bits for PGW (patch gap width) (1 to 8 bits)
 	// so max pg for 3 bits pgw is 255
-	var pgw int
-	for _, g := range pvs.gaps {
-		pgw_ := getBitsWidth(uint64(g))
-		if pgw_ > pgw {
-			pgw = pgw_
-		}
-	}
+	pgw := pvs.gapWidth()
 	header[3] = byte(pgw-1) & 0b111 << 5
 
 	// 5 bits for PLL (patch list length) (0 to 31)
@@ -1026,6 +1045,26 @@ func getBitsWidth(x uint64) (w int) {
 	return w
 }
 
+// smallest bits width in the width encoding table that n bits fit in
+func getClosestFixedBits(n int) int {
+	switch {
+	case n == 0:
+		return 1
+	case n <= 24:
+		return n
+	case n <= 26:
+		return 26
+	case n <= 28:
+		return 28
+	case n <= 30:
+		return 30
+	case n <= 32:
+		return 32
+	default:
+		return (n + 7) / 8 * 8
+	}
+}
+
 // Get bits width of x, align to width encoding table
 func getAlignedWidth(x uint64) int {
 	var n byte
-- 
2.43.0


From 72392bbff81d7c56efed1b345ea4b6d5ffe4e2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:02 +0000
Subject: [PATCH 07/40] fix: patch list entries are padded to an encodable
 width

As in the Java and C++ implementations an entry takes the closest fixed
width of gap plus patch width. Widths 22 and 23 are encodable and a gap and
patch of 64 bits together are allowed.
---
 orc/encoding/int.go     | 6 +++---
 orc/encoding/package.go | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index a4e47df..a351609 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -226,7 +226,7 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 		return err
 	}
 	pgw := uint16(header[3])>>5&0x07 + 1 // 3 bits patch gap width(PGW), value 1 to 8 bits
-	if (int(pw) + int(pgw)) >= 64 {
+	if (int(pw) + int(pgw)) > 64 {
 		return errors.New("decoding: int rl v2, patchWidth+gapWidth must less or equal to 64")
 	}
 	pll := header[3] & 0x1f // 5bits patch list length, value 0 to 31
@@ -269,7 +269,7 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 	// decode patch values, PGW+PW must < 64
 	d.forgetBits()
 	for i := 0; i < int(pll); i++ {
-		pp, err := d.readBits(in, int(pgw)+int(pw))
+		pp, err := d.readBits(in, getClosestFixedBits(int(pgw)+int(pw)))
 		if err != nil {
 			return err
 		}
@@ -875,7 +875,7 @@ func (e *intRLV2Encoder) writePatch(pvs *patchedValues, out *bytes.Buffer) error
 	e.forgetBits()
 	for i, p := range pvs.patches {
 		patch := (uint64(pvs.gaps[i]) << patchWidth) | p
-		if err := e.writeBits(patch, pgw+patchWidth, out); err != nil {
+		if err := e.writeBits(patch, getClosestFixedBits(pgw+patchWidth), out); err != nil {
 			return err
 		}
 	}
diff --git a/orc/encoding/package.go b/orc/encoding/package.go
index a6d666a..ecafe74 100755
--- a/orc/encoding/package.go
+++ b/orc/encoding/package.go
@@ -161,9 +161,9 @@ func (irl *intRunLengthV1) Encode(out *bytes.Buffer) error {
 
 
 func widthEncoding(width int) (w byte, err error) {
-	if 2 <= width && width <= 21 {
+	if 2 <= width && width <= 24 {
 		w = byte(width - 1)
-		if (3 == width) || (5 <= width && width <= 7) || (9 <= width && width <= 15) || (17 <= width && width <= 21) {
+		if (3 == width) || (5 <= width && width <= 7) || (9 <= width && width <= 15) || (17 <= width && width <= 23) {
 			log.Warnf("encoding: width %d is deprecated", width)
 		}
 		return
-- 
2.43.0


From 77121f57e8f53ebb46640c12209ee314c8194de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:03 +0000
Subject: [PATCH 08/40] fix: patched runs of unsigned integers are decoded

Other writers use patched base for unsigned streams (lengths, dictionary
indexes) too. A patch outside its run is an error instead of a panic.
---
 orc/encoding/int.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index a351609..0e9cf50 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -107,11 +107,6 @@ func (d *intRLV2Decoder) decode(in BufferedReader) error {
 		}
 
 	case Encoding_PATCHED_BASE:
-		// rethink: according to base value is a signed smallest value, patch should always signed?
-		if !d.signed {
-			return errors.New("decoding: int rl v2 patch signed setting should not false")
-		}
-
 		if err = d.readPatched(in, firstByte); err != nil {
 			return err
 		}
@@ -263,7 +258,11 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 			return err
 		}
 		// rethink: cast int64
-		d.uvs = append(d.uvs, Zigzag(base+int64(delta)))
+		if d.signed {
+			d.uvs = append(d.uvs, Zigzag(base+int64(delta)))
+		} else {
+			d.uvs = append(d.uvs, uint64(base)+delta)
+		}
 	}
 
 	// decode patch values, PGW+PW must < 64
@@ -280,12 +279,23 @@ func (d *intRLV2Decoder) readPatched(in BufferedReader, firstByte byte) error {
 
 		// todo: check gap==255 and patch==0
 
+		if mark >= len(d.uvs) {
+			return errors.Errorf("decoding: int rl v2 patch at %d out of run", mark)
+		}
+
 		// patchValue should be at largest 63 bits?
-		v := UnZigzag(d.uvs[mark])
+		v := int64(d.uvs[mark])
+		if d.signed {
+			v = UnZigzag(d.uvs[mark])
+		}
 		v -= base // remove added base first
 		v |= int64(patch << width)
 		v += base // add base back
-		d.uvs[mark] = Zigzag(v)
+		if d.signed {
+			d.uvs[mark] = Zigzag(v)
+		} else {
+			d.uvs[mark] = uint64(v)
+		}
 	}
 
 	return nil
-- 
2.43.0


From 3a05aeddfc8f482a9074abeba0b9f63f5769820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:05 +0000
Subject: [PATCH 09/40] fix: delta runs of length 1 hold one value, and
 ReadVUint ends at end of input

---
 orc/encoding/int.go     | 3 +++
 orc/encoding/package.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 0e9cf50..6f8c2be 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -147,6 +147,9 @@ func (d *intRLV2Decoder) decode(in BufferedReader) error {
 			return errors.WithStack(err)
 		}
 
+		if length == 1 {
+			return nil
+		}
 		if d.signed {
 			d.uvs = append(d.uvs, Zigzag(base+deltaBase))
 		} else {
diff --git a/orc/encoding/package.go b/orc/encoding/package.go
index ecafe74..db30a89 100755
--- a/orc/encoding/package.go
+++ b/orc/encoding/package.go
@@ -275,7 +275,7 @@ func ReadVUint(in io.ByteReader) (r uint64, err error) {
 	for {
 		b, err = in.ReadByte()
 		if err != nil {
-			errors.WithStack(err)
+			return 0, errors.WithStack(err)
 		}
 		r |= uint64(0x7f&b) << shift
 		shift += 7
-- 
2.43.0


From 057f93ce2143107727e02c1da1602e843a261fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:07 +0000
Subject: [PATCH 10/40] fix: floats are little endian on disk like doubles

The ORC specification stores both IEEE 754 widths little endian; float
columns of other writers were read as garbage and vice versa.
---
 orc/encoding/float.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orc/encoding/float.go b/orc/encoding/float.go
index 223bec1..fedf548 100644
--- a/orc/encoding/float.go
+++ b/orc/encoding/float.go
@@ -24,7 +24,7 @@ func (f float) Encode(v interface{}, out *bytes.Buffer) error {
 		return errors.New("float encoding value should be type float32")
 	}
 	bb := make([]byte, 4)
-	binary.BigEndian.PutUint32(bb, math.Float32bits(value))
+	binary.LittleEndian.PutUint32(bb, math.Float32bits(value))
 	if _, err := out.Write(bb); err != nil {
 		return err
 	}
@@ -46,7 +46,7 @@ func DecodeFloat(in io.Reader) (float32, error) {
 	if _, err := io.ReadFull(in, bb); err != nil {
 		return 0, errors.WithStack(err)
 	}
-	v := math.Float32frombits(binary.BigEndian.Uint32(bb))
+	v := math.Float32frombits(binary.LittleEndian.Uint32(bb))
 	return v, nil
 }
 
-- 
2.43.0


From a63ae989539a5ce3cded7d2f392610719f89b357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 11/40] fix: boolean encoder starts afresh after a flush

The bits of an unfinished byte stayed behind and were or'ed into the first
byte of the next stripe.
---
 orc/encoding/bool.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orc/encoding/bool.go b/orc/encoding/bool.go
index 6dcd439..ad3a3b4 100644
--- a/orc/encoding/bool.go
+++ b/orc/encoding/bool.go
@@ -62,6 +62,10 @@ func (e *boolRunLength) Flush(out *bytes.Buffer) error {
 		return err
 	}
 	e.index = -1
+	e.value = 0
+	if e.position != -1 {
+		e.position = 0
+	}
 	return nil
 }
 
-- 
2.43.0


From d19cbc70d6c66d2f7a2fc75c2b1409b02af8f0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 12/40] fix: files can be written without compression

CompressingAllInChunks failed for kind NONE although everything had been
passed through, so flushing the first stripe footer always failed.
---
 orc/common/misc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index b981e15..ea0eae2 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -145,7 +145,9 @@ func zlibCompressingLeft(chunkSize int, dst *bytes.Buffer, src *bytes.Buffer) er
 func CompressingLeft(kind pb.CompressionKind, chunkSize int, dst *bytes.Buffer, src *bytes.Buffer) error {
 	switch kind {
 	case pb.CompressionKind_NONE:
-		return errors.New("no compression")
+		if _, err := src.WriteTo(dst); err != nil {
+			return errors.WithStack(err)
+		}
 	case pb.CompressionKind_ZLIB:
 		if err := zlibCompressingLeft(chunkSize, dst, src); err != nil {
 			return err
-- 
2.43.0


From ae2d5f6373171c00afb0ed19fc0891cf00399bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:22 +0000
Subject: [PATCH 13/40] fix: more than one full chunk can be compressed

The compressor was used again after Close without a Reset.
---
 orc/common/misc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index ea0eae2..93793e0 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -62,6 +62,7 @@ func zlibCompressingToChunks(chunkSize int, dst *bytes.Buffer, src *bytes.Buffer
 		}
 
 		cBuf.Reset()
+		compressor.Reset(cBuf)
 		if _, err = compressor.Write(buf); err != nil {
 			return errors.WithStack(err)
 		}
-- 
2.43.0


From c22820331474f38f1e43ea7e7adc6597cd7032f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:24 +0000
Subject: [PATCH 14/40] fix: a truncated chunk header is an error

---
 orc/common/misc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/common/misc.go b/orc/common/misc.go
index 93793e0..cfa37ff 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -235,7 +235,7 @@ func DecompressChunks(kind pb.CompressionKind, dst *bytes.Buffer, src *bytes.Buf
 	case pb.CompressionKind_ZLIB:
 		for src.Len() > 0 {
 			header := make([]byte, 3)
-			if _, err = src.Read(header); err != nil {
+			if _, err = io.ReadFull(src, header); err != nil {
 				return errors.WithStack(err)
 			}
 
-- 
2.43.0


From 7a415bac634d813b38ae6296a6db35932e548a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:26 +0000
Subject: [PATCH 15/40] fix: uncompressed stream writers can be reset for the
 next stripe

---
 orc/stream/writer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orc/stream/writer.go b/orc/stream/writer.go
index 7b4fd0f..a264551 100644
--- a/orc/stream/writer.go
+++ b/orc/stream/writer.go
@@ -99,7 +99,9 @@ func (w *writer) Reset() {
 	*w.info.Length = 0
 
 	w.buf.Reset()
-	w.compressedBuf.Reset()
+	if w.compressedBuf != nil { // no compression
+		w.compressedBuf.Reset()
+	}
 
 	w.positions = w.positions[:0]
 }
-- 
2.43.0


From e3fb7f7495f14e0c15559a0c70786b5f94874344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:49 +0000
Subject: [PATCH 16/40] fix: seeking works beyond the first chunk size and at
 the end of a stream

An uncompressed stream only read one chunk size from its start before
skipping to the offset, and a position at the end (no value left, as with
trailing nulls) read past the stream.
---
 orc/stream/reader.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index c1f8c2c..8678980 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -94,11 +94,21 @@ func (r *reader) Read(p []byte) (n int, err error) {
 func (r *reader) seek(chunk uint64, chunkOffset uint64) error {
 	logger.Tracef("seeking, stream %s of column %d seek to chunk %d, decompressed offset %d",
 		r.info.GetKind().String(), r.info.GetColumn(), chunk, chunkOffset)
+	if r.opts.CompressionKind == pb.CompressionKind_NONE {
+		// no chunks, so it may be further than a chunk size
+		chunk, chunkOffset = chunk+chunkOffset, 0
+	}
+	if chunk > r.info.GetLength() || (chunk == r.info.GetLength() && chunkOffset != 0) {
+		return errors.Errorf("stream %s has no position %d %d", r.info.String(), chunk, chunkOffset)
+	}
 	r.buf.Reset()
 	if _, err := r.f.Seek(int64(r.start+chunk), io.SeekStart); err != nil {
 		return err
 	}
 	r.readLength = chunk
+	if chunkOffset == 0 { // will be read on demand, it may be the end of stream
+		return nil
+	}
 	if err := r.readAChunk(); err != nil {
 		return err
 	}
-- 
2.43.0


From a8212fc4ebf93f8481ec2f6fdd6eaa3eb8664887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 17/40] fix: encoder positions are right after a flush, and
 varints have none

A position taken at the start of the next stripe still counted the values of
the previous one; for varints the stream offset is the whole position (the
reader expected none in one branch and the specification has none).
---
 orc/encoding/byte.go | 3 +++
 orc/encoding/int.go  | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/orc/encoding/byte.go b/orc/encoding/byte.go
index 7c90679..bf33755 100644
--- a/orc/encoding/byte.go
+++ b/orc/encoding/byte.go
@@ -42,6 +42,9 @@ func (e *byteRunLength) Flush(out *bytes.Buffer) error {
 	for len(e.values) != 0 {
 		e.encodeBytes(out, true)
 	}
+	if e.position != -1 {
+		e.position = 0
+	}
 	return nil
 }
 
diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index 6f8c2be..e821209 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -432,6 +432,9 @@ func (e *intRLV2Encoder) Flush(out *bytes.Buffer) error {
 		}
 		e.forgetBits()
 	}
+	if e.position != -1 {
+		e.position = 0
+	}
 	return nil
 }
 
@@ -1216,7 +1219,8 @@ func (e *varint64Encoder) Flush(out *bytes.Buffer) error {
 }
 
 func (e *varint64Encoder) GetPosition() []uint64 {
-	return []uint64{1}
+	// values are not grouped, no need
+	return []uint64{}
 }
 
 func DecodeVarInt64(in BufferedReader) (value int64, err error) {
-- 
2.43.0


From effb6f4011516ef96df4556678a40338d7c0d114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:32 +0000
Subject: [PATCH 18/40] fix: row index entries describe their own row group and
 can be found by the stripe footer

---
 orc/column/binary.go  | 35 +++++++-----------
 orc/column/bool.go    | 38 +++++++-------------
 orc/column/byte.go    | 31 ++++++----------
 orc/column/decimal.go | 44 ++++++++---------------
 orc/column/float.go   | 35 +++++++-----------
 orc/column/int.go     | 36 +++++++------------
 orc/column/list.go    | 37 +++++++------------
 orc/column/map.go     |  2 +-
 orc/column/reader.go  | 21 +++++++++--
 orc/column/string.go  | 60 +++++++++++++++----------------
 orc/column/struct.go  | 40 ++++++++-------------
 orc/column/time.go    | 84 +++++++++++++++----------------------------
 orc/column/writer.go  | 58 +++++++++++++++++++++++++++---
 orc/stripe.go         | 15 ++++++--
 orc/writer.go         |  5 ++-
 15 files changed, 250 insertions(+), 291 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index ddaddfb..5b09ba0 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -13,23 +13,27 @@ import (
 )
 
 func NewBinaryV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}}
+	newStats := func() *pb.ColumnStatistics {
+		stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
+			BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}}
+		*stats.HasNull = schema.HasNulls
+		return stats
+	}
+	stats := newStats()
 	var present stream.Writer
 	if schema.HasNulls {
-		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
 	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}}
+		indexStats = newStats()
 		index = &pb.RowIndex{}
 	}
 	base := &writer{schema: schema, opts: opts, stats: stats, present: present, indexStats: indexStats, index: index}
 	data := stream.NewStringContentsWriter(schema.Id, pb.Stream_DATA, opts)
 	length := stream.NewIntRLV2Writer(schema.Id, pb.Stream_LENGTH, opts, false)
+	base.indexed(newStats, data, length)
 	return &binaryV2Writer{base, data, length}
 }
 
@@ -55,32 +59,17 @@ func (w *binaryV2Writer) Write(value api.Value) error {
 	}
 
 	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			pp = append(pp, w.length.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}, NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
 		if !value.Null {
 			*w.indexStats.BinaryStatistics.Sum++
 			*w.indexStats.NumberOfValues++
 		}
 	}
+	w.endRow()
 	return nil
 }
 
 func (w *binaryV2Writer) Flush() error {
+	w.flushIndex()
 	w.flushed = true
 
 	if w.schema.HasNulls {
@@ -246,7 +235,7 @@ func (r *BinaryV2Reader) SeekStride(stride int) error {
 	var dataChunk, dataChunkOffset uint64
 	var lengthChunk, lengthChunkOffset, lengthOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 2, 1)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/bool.go b/orc/column/bool.go
index ff68287..175a811 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -11,25 +11,26 @@ import (
 )
 
 func newBoolWriter(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
-		NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool)}
+	newStats := func() *pb.ColumnStatistics {
+		stats := &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
+			NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool)}
+		*stats.HasNull = schema.HasNulls
+		return stats
+	}
+	stats := newStats()
 	var present stream.Writer
 	if schema.HasNulls {
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
-		*stats.HasNull = true
 	}
 	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
-			HasNull: new(bool), NumberOfValues: new(uint64), BytesOnDisk: new(uint64)}
-		if schema.HasNulls {
-			*indexStats.HasNull = true
-		}
+		indexStats = newStats()
 		index = &pb.RowIndex{}
 	}
 	base := &writer{schema: schema, opts: opts, present: present, stats: stats, indexStats: indexStats, index: index}
 	data := stream.NewBoolWriter(schema.Id, pb.Stream_DATA, opts)
+	base.indexed(newStats, data)
 	return &boolWriter{base, data}
 }
 
@@ -56,32 +57,19 @@ func (w *boolWriter) Write(value api.Value) error {
 	}
 
 	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
-				NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
 		// no bytes on disk index stats
 		if !value.Null {
 			(*w.indexStats.BucketStatistics).Count[0]++
 			*w.indexStats.NumberOfValues++
 		}
 	}
+	w.endRow()
 	return nil
 }
 
 func (w *boolWriter) Flush() error {
+	w.flushIndex()
+
 	if w.schema.HasNulls {
 		if err := w.present.Flush(); err != nil {
 			return err
@@ -226,7 +214,7 @@ func (r *BoolReader) SeekStride(stride int) error {
 
 	var dataChunk, dataChunkOffset, dataOffset1, dataOffset2 uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1, 2)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/byte.go b/orc/column/byte.go
index adafb26..e80e0c0 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -11,20 +11,25 @@ import (
 )
 
 func newByteWriter(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64), BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}}
+	newStats := func() *pb.ColumnStatistics {
+		stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64), BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}}
+		*stats.HasNull = schema.HasNulls
+		return stats
+	}
+	stats := newStats()
 	var present stream.Writer
 	if schema.HasNulls {
-		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
 	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64), BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}}
+		indexStats = newStats()
 		index = &pb.RowIndex{}
 	}
 	base := &writer{schema: schema, opts: opts, stats: stats, present: present, indexStats: indexStats, index: index}
 	data := stream.NewByteWriter(schema.Id, pb.Stream_DATA, opts)
+	base.indexed(newStats, data)
 	return &byteWriter{base, data}
 }
 
@@ -49,28 +54,13 @@ func (w *byteWriter) Write(value api.Value) error {
 	}
 
 	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}, NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
 		// java impl does not write index statistic bytes on disk, has nulls ...
 		if !value.Null {
 			*w.indexStats.BinaryStatistics.Sum++
 			*w.indexStats.NumberOfValues++
 		}
 	}
+	w.endRow()
 	return nil
 }
 
@@ -82,6 +72,7 @@ func (w *byteWriter) Size() int {
 }
 
 func (w *byteWriter) Flush() error {
+	w.flushIndex()
 	w.flushed = true
 
 	if w.schema.HasNulls {
@@ -220,7 +211,7 @@ func (r *ByteReader) SeekStride(stride int) error {
 
 	var dataChunk, dataChunkOffset, dataOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1, 1)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index d4909f4..2607793 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -15,24 +15,28 @@ import (
 )
 
 func NewDecimal64V2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		DecimalStatistics: &pb.DecimalStatistics{Minimum: new(string), Maximum: new(string), Sum: new(string)}}
+	newStats := func() *pb.ColumnStatistics {
+		stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
+			DecimalStatistics: &pb.DecimalStatistics{Minimum: new(string), Maximum: new(string), Sum: new(string)}}
+		*stats.HasNull = schema.HasNulls
+		return stats
+	}
+	stats := newStats()
 	var present stream.Writer
 	if schema.HasNulls {
-		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
 	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			DecimalStatistics: &pb.DecimalStatistics{Minimum: new(string), Maximum: new(string), Sum: new(string)}}
+		indexStats = newStats()
 		index = &pb.RowIndex{}
 	}
 	data := stream.NewVarint64V2Writer(schema.Id, pb.Stream_DATA, opts)
 	secondary := stream.NewIntRLV2Writer(schema.Id, pb.Stream_SECONDARY, opts, true)
-	return &decimalV2Writer{&writer{schema: schema, opts: opts, stats: stats, present: present, index: index,
-		indexStats: indexStats}, data, secondary}
+	base := &writer{schema: schema, opts: opts, stats: stats, present: present, index: index, indexStats: indexStats}
+	base.indexed(newStats, data, secondary)
+	return &decimalV2Writer{base, data, secondary}
 }
 
 type decimalV2Writer struct {
@@ -75,26 +79,6 @@ func (w *decimalV2Writer) Write(value api.Value) error {
 		*w.stats.NumberOfValues++
 
 		if w.opts.WriteIndex {
-			w.indexInRows++
-
-			if w.indexInRows >= w.opts.IndexStride {
-				var pp []uint64
-				if w.schema.HasNulls {
-					pp = append(pp, w.present.GetPosition()...)
-				}
-				pp = append(pp, w.data.GetPosition()...)
-				pp = append(pp, w.secondary.GetPosition()...)
-				w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-				w.indexStats = &pb.ColumnStatistics{
-					DecimalStatistics: &pb.DecimalStatistics{Maximum: new(string), Minimum: new(string), Sum: new(string)},
-					NumberOfValues:    new(uint64), HasNull: new(bool)}
-				if w.schema.HasNulls {
-					*w.indexStats.HasNull = true
-				}
-				w.indexInRows = 0
-			}
-
 			if s < w.indexStats.DecimalStatistics.GetMinimum() {
 				*w.indexStats.DecimalStatistics.Minimum = s
 			}
@@ -110,11 +94,13 @@ func (w *decimalV2Writer) Write(value api.Value) error {
 			*w.indexStats.NumberOfValues++
 		}
 	}
-
+	w.endRow()
 	return nil
 }
 
 func (w *decimalV2Writer) Flush() error {
+	w.flushIndex()
+
 	if w.schema.HasNulls {
 		if err := w.present.Flush(); err != nil {
 			return err
@@ -281,7 +267,7 @@ func (r *DecimalV2Reader) SeekStride(stride int) error {
 	var dataChunk, dataChunkOffset, dataOffset uint64
 	var secondaryChunk, secondaryChunkOffset, secondaryOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 2, 1)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/float.go b/orc/column/float.go
index 06181dd..2c2b12f 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -113,7 +113,7 @@ func (r *FloatReader) SeekStride(stride int) error {
 
 	var dataChunk, dataChunkOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1, 0)
 	if err != nil {
 		return err
 	}
@@ -162,22 +162,26 @@ func (r *FloatReader) Close() {
 }
 
 func newFloatWriter(schema *api.TypeDescription, opts *config.WriterOptions, is64 bool) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		DoubleStatistics: &pb.DoubleStatistics{Sum: new(float64), Maximum: new(float64), Minimum: new(float64)}}
+	newStats := func() *pb.ColumnStatistics {
+		stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
+			DoubleStatistics: &pb.DoubleStatistics{Sum: new(float64), Maximum: new(float64), Minimum: new(float64)}}
+		*stats.HasNull = schema.HasNulls
+		return stats
+	}
+	stats := newStats()
 	var present stream.Writer
 	if schema.HasNulls {
-		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
 	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			DoubleStatistics: &pb.DoubleStatistics{Maximum: new(float64), Minimum: new(float64), Sum: new(float64)}}
+		indexStats = newStats()
 		index = &pb.RowIndex{}
 	}
 	base := &writer{schema: schema, opts: opts, present: present, indexStats: indexStats, index: index, stats: stats}
 	data := stream.NewFloatWriter(schema.Id, pb.Stream_DATA, opts, is64)
+	base.indexed(newStats, data)
 	return &floatWriter{base, data, is64}
 }
 
@@ -216,23 +220,6 @@ func (w *floatWriter) Write(value api.Value) error {
 	}
 
 	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{DoubleStatistics: &pb.DoubleStatistics{Sum: new(float64), Maximum: new(float64), Minimum: new(float64)},
-				NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
 		if !value.Null {
 			v := value.V.(float64)
 			*w.indexStats.DoubleStatistics.Sum += v
@@ -246,10 +233,12 @@ func (w *floatWriter) Write(value api.Value) error {
 			*w.indexStats.NumberOfValues++
 		}
 	}
+	w.endRow()
 	return nil
 }
 
 func (w *floatWriter) Flush() error {
+	w.flushIndex()
 	w.flushed = true
 	if w.schema.HasNulls {
 		if err := w.present.Flush(); err != nil {
diff --git a/orc/column/int.go b/orc/column/int.go
index 286f1fa..69bf6c8 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -11,22 +11,26 @@ import (
 )
 
 func newIntV2Writer(schema *api.TypeDescription, opts *config.WriterOptions, bits int) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		IntStatistics: &pb.IntegerStatistics{Minimum: new(int64), Maximum: new(int64), Sum: new(int64)}}
+	newStats := func() *pb.ColumnStatistics {
+		stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
+			IntStatistics: &pb.IntegerStatistics{Minimum: new(int64), Maximum: new(int64), Sum: new(int64)}}
+		*stats.HasNull = schema.HasNulls
+		return stats
+	}
+	stats := newStats()
 	var present stream.Writer
 	if schema.HasNulls {
-		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
 	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			IntStatistics: &pb.IntegerStatistics{Sum: new(int64), Minimum: new(int64), Maximum: new(int64)}}
+		indexStats = newStats()
 		index = &pb.RowIndex{}
 	}
 	base := &writer{opts: opts, schema: schema, stats: stats, present: present, index: index, indexStats: indexStats}
 	data := stream.NewIntRLV2Writer(schema.Id, pb.Stream_DATA, opts, true)
+	base.indexed(newStats, data)
 	return &intWriter{base, data, bits}
 }
 
@@ -83,23 +87,6 @@ func (w *intWriter) Write(value api.Value) error {
 	}
 
 	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-				IntStatistics: &pb.IntegerStatistics{Sum: new(int64), Minimum: new(int64), Maximum: new(int64)}}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
 		if !value.Null {
 			*w.indexStats.IntStatistics.Sum += v
 			if v < *w.indexStats.IntStatistics.Minimum {
@@ -111,6 +98,7 @@ func (w *intWriter) Write(value api.Value) error {
 			*w.indexStats.NumberOfValues++
 		}
 	}
+	w.endRow()
 	return nil
 }
 
@@ -122,6 +110,8 @@ func (w intWriter) Size() int {
 }
 
 func (w intWriter) Flush() error {
+	w.flushIndex()
+
 	if w.schema.HasNulls {
 		if err := w.present.Flush(); err != nil {
 			return err
@@ -275,7 +265,7 @@ func (r *IntV2Reader) SeekStride(stride int) error {
 
 	var dataChunk, dataChunkOffset, dataOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1, 1)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/list.go b/orc/column/list.go
index a000b5f..31d710c 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -128,7 +128,7 @@ func (r *ListV2Reader) SeekStride(stride int) error {
 
 	var lengthChunk, lengthChunkOffset, lengthOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1, 1)
 	if err != nil {
 		return err
 	}
@@ -187,22 +187,25 @@ func (r *ListV2Reader) Close() {
 }
 
 func NewListV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool)}
+	newStats := func() *pb.ColumnStatistics {
+		stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool)}
+		*stats.HasNull = schema.HasNulls
+		return stats
+	}
+	stats := newStats()
 	var present stream.Writer
 	if schema.HasNulls {
-		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
 	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{HasNull: new(bool), NumberOfValues: new(uint64), BytesOnDisk: new(uint64)}
-		if schema.HasNulls {
-			*indexStats.HasNull = true
-		}
+		indexStats = newStats()
 		index = &pb.RowIndex{}
 	}
-	return &structWriter{&writer{schema: schema, opts: opts, present: present, indexStats: indexStats, stats: stats, index: index}}
+	base := &writer{schema: schema, opts: opts, present: present, indexStats: indexStats, stats: stats, index: index}
+	base.indexed(newStats)
+	return &structWriter{base}
 }
 
 type listV2Writer struct {
@@ -225,30 +228,16 @@ func (w *listV2Writer) Write(value api.Value) error {
 	}
 
 	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.length.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
 		if !value.Null {
 			*w.indexStats.NumberOfValues++
 		}
 	}
+	w.endRow()
 	return nil
 }
 
 func (w *listV2Writer) Flush() error {
+	w.flushIndex()
 	w.flushed = true
 
 	if w.schema.HasNulls {
diff --git a/orc/column/map.go b/orc/column/map.go
index 05434ee..9642340 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -149,7 +149,7 @@ func (r *MapV2Reader) SeekStride(stride int) error {
 
 	var lengthChunk, lengthChunkOffset, lengthOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1, 1)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/reader.go b/orc/column/reader.go
index d2635ad..d8f13b1 100644
--- a/orc/column/reader.go
+++ b/orc/column/reader.go
@@ -58,7 +58,9 @@ func (r *reader) InitIndex(startOffset uint64, length uint64) error {
 	return nil
 }
 
-func (r *reader) getStridePositions(stride int) (pos []uint64, err error) {
+// getStridePositions get positions of the first row of stride, of the streams other than present, and
+// with a number of positions inside encoded runs
+func (r *reader) getStridePositions(stride int, present bool, streams int, values int) (pos []uint64, err error) {
 	if r.index == nil {
 		err = errors.New("no index")
 		return
@@ -67,10 +69,23 @@ func (r *reader) getStridePositions(stride int) (pos []uint64, err error) {
 		err = errors.New("stride < 1")
 		return
 	}
-	if stride > len(r.index.Entry) {
+	if stride >= len(r.index.Entry) {
 		err = errors.Errorf("stride %d does not exist", stride)
+		return
+	}
+	pos = r.index.Entry[stride].Positions
+
+	if present {
+		streams++
+		values += 2
+	}
+	count := streams + values
+	if r.opts.CompressionKind != pb.CompressionKind_NONE {
+		count += streams
+	}
+	if len(pos) < count {
+		err = errors.Errorf("index of column %d has %d positions, should have %d", r.schema.Id, len(pos), count)
 	}
-	pos = r.index.Entry[stride-1].Positions
 	return
 }
 
diff --git a/orc/column/string.go b/orc/column/string.go
index 29cb5ae..2b81d66 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -16,24 +16,28 @@ const (
 )
 
 func newStringDirectV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
-		Maximum: new(string), Minimum: new(string), Sum: new(int64)},
-		NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
+	newStats := func() *pb.ColumnStatistics {
+		stats := &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
+			Maximum: new(string), Minimum: new(string), Sum: new(int64)},
+			NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
+		*stats.HasNull = schema.HasNulls
+		return stats
+	}
+	stats := newStats()
 	var present stream.Writer
 	if schema.HasNulls {
-		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
 	var index *pb.RowIndex
 	var indexStats *pb.ColumnStatistics
 	if opts.WriteIndex {
 		index = &pb.RowIndex{}
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool),
-			StringStatistics: &pb.StringStatistics{Maximum: new(string), Minimum: new(string), Sum: new(int64)}}
+		indexStats = newStats()
 	}
 	base := &writer{schema: schema, opts: opts, stats: stats, present: present, index: index, indexStats: indexStats}
 	data := stream.NewStringContentsWriter(schema.Id, pb.Stream_DATA, opts)
 	length := stream.NewIntRLV2Writer(schema.Id, pb.Stream_LENGTH, opts, false)
+	base.indexed(newStats, data, length)
 	return &stringDirectV2Writer{base, data, length}
 }
 
@@ -91,24 +95,6 @@ func (w *stringDirectV2Writer) Write(value api.Value) error {
 	}
 
 	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			pp = append(pp, w.length.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Statistics: w.indexStats, Positions: pp})
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
-				Maximum: new(string), Minimum: new(string), Sum: new(int64)},
-				NumberOfValues: new(uint64), HasNull: new(bool)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
 
 		if !value.Null {
 			*w.indexStats.NumberOfValues++
@@ -137,10 +123,13 @@ func (w *stringDirectV2Writer) Write(value api.Value) error {
 			}
 		}
 	}
+	w.endRow()
 	return nil
 }
 
 func (w *stringDirectV2Writer) Flush() error {
+	w.flushIndex()
+
 	if w.schema.HasNulls {
 		if err := w.present.Flush(); err != nil {
 			return err
@@ -302,7 +291,7 @@ func (r *StringDirectV2Reader) SeekStride(stride int) error {
 	var dataChunk, dataChunkOffset uint64
 	var lengthChunk, lengthChunkOffset, lengthOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 2, 1)
 	if err != nil {
 		return err
 	}
@@ -482,7 +471,7 @@ func (r *StringDictionaryV2Reader) SeekStride(stride int) error {
 	// need data index only
 	var dataChunk, dataChunkOffset, dataOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1, 1)
 	if err != nil {
 		return err
 	}
@@ -541,25 +530,29 @@ func (r *StringDictionaryV2Reader) Close() {
 }
 
 func NewStringDictionaryV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
-		Maximum: new(string), Minimum: new(string), Sum: new(int64), LowerBound: new(string), UpperBound: new(string)},
-		NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
+	newStats := func() *pb.ColumnStatistics {
+		stats := &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
+			Maximum: new(string), Minimum: new(string), Sum: new(int64), LowerBound: new(string), UpperBound: new(string)},
+			NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
+		*stats.HasNull = schema.HasNulls
+		return stats
+	}
+	stats := newStats()
 	var present stream.Writer
 	if schema.HasNulls {
-		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
 	var index *pb.RowIndex
 	var indexStats *pb.ColumnStatistics
 	if opts.WriteIndex {
 		index = &pb.RowIndex{}
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool),
-			StringStatistics: &pb.StringStatistics{Maximum: new(string), Minimum: new(string), Sum: new(int64), LowerBound: new(string), UpperBound: new(string)}}
+		indexStats = newStats()
 	}
 	base := &writer{schema: schema, opts: opts, stats: stats, present: present, index: index, indexStats: indexStats}
 	data := stream.NewIntRLV2Writer(schema.Id, pb.Stream_DATA, opts, false)
 	dict := stream.NewStringContentsWriter(schema.Id, pb.Stream_DICTIONARY_DATA, opts)
 	length := stream.NewIntRLV2Writer(schema.Id, pb.Stream_LENGTH, opts, false)
+	base.indexed(newStats, data)
 	return &stringDictionaryV2Writer{writer: base, dataStream: data, dictStream: dict, lengthStream: length, data: map[string][]int{}}
 }
 
@@ -655,10 +648,13 @@ func (w *stringDictionaryV2Writer) Write(value api.Value) error {
 			}
 		}
 	}*/
+	w.endRow()
 	return nil
 }
 
 func (w *stringDictionaryV2Writer) Flush() error {
+	w.flushIndex()
+
 	var dict []string
 	for k := range w.data {
 		dict = append(dict, k)
diff --git a/orc/column/struct.go b/orc/column/struct.go
index 0d08bea..631d2b6 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -65,7 +65,7 @@ func (r *StructReader) SeekStride(stride int) error {
 	if r.present != nil {
 		var pChunk, pChunkOffset, pOffset1, pOffset2 uint64
 
-		pos, err := r.getStridePositions(stride)
+		pos, err := r.getStridePositions(stride, true, 0, 0)
 		if err != nil {
 			return err
 		}
@@ -156,24 +156,26 @@ func (r *StructReader) Close() {
 }
 
 func newStructWriter(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
-		NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool)}
+	newStats := func() *pb.ColumnStatistics {
+		stats := &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
+			NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool)}
+		*stats.HasNull = schema.HasNulls
+		return stats
+	}
+	stats := newStats()
 	var present stream.Writer
 	if schema.HasNulls {
-		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
 	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
-			HasNull: new(bool), NumberOfValues: new(uint64), BytesOnDisk: new(uint64)}
-		if schema.HasNulls {
-			*indexStats.HasNull = true
-		}
+		indexStats = newStats()
 		index = &pb.RowIndex{}
 	}
-	return &structWriter{&writer{schema: schema, opts: opts, present: present, indexStats: indexStats, stats: stats, index: index}}
+	base := &writer{schema: schema, opts: opts, present: present, indexStats: indexStats, stats: stats, index: index}
+	base.indexed(newStats)
+	return &structWriter{base}
 }
 
 type structWriter struct {
@@ -194,31 +196,19 @@ func (w *structWriter) Write(value api.Value) error {
 	*w.stats.NumberOfValues++
 
 	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
-				NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
 		// no bytes on disk index stats
 		if !value.Null {
 			(*w.indexStats.BucketStatistics).Count[0]++
 		}
 		*w.indexStats.NumberOfValues++
 	}
+	w.endRow()
 	return nil
 }
 
 func (w *structWriter) Flush() error {
+	w.flushIndex()
+
 	if w.schema.HasNulls {
 		if err := w.present.Flush(); err != nil {
 			return err
diff --git a/orc/column/time.go b/orc/column/time.go
index 97c1697..7968a80 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -13,22 +13,26 @@ import (
 )
 
 func NewDateV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		DateStatistics: &pb.DateStatistics{Minimum: new(int32), Maximum: new(int32)}}
+	newStats := func() *pb.ColumnStatistics {
+		stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
+			DateStatistics: &pb.DateStatistics{Minimum: new(int32), Maximum: new(int32)}}
+		*stats.HasNull = schema.HasNulls
+		return stats
+	}
+	stats := newStats()
 	var present stream.Writer
 	if schema.HasNulls {
-		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
 	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			DateStatistics: &pb.DateStatistics{Minimum: new(int32), Maximum: new(int32)}}
+		indexStats = newStats()
 		index = &pb.RowIndex{}
 	}
 	base := &writer{schema: schema, opts: opts, stats: stats, present: present, indexStats: indexStats, index: index}
 	data := stream.NewIntRLV2Writer(schema.Id, pb.Stream_DATA, opts, true)
+	base.indexed(newStats, data)
 	return &dateV2Writer{base, data}
 }
 
@@ -61,23 +65,6 @@ func (w *dateV2Writer) Write(value api.Value) error {
 	}
 
 	if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.data.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{DateStatistics: &pb.DateStatistics{Minimum: new(int32), Maximum: new(int32)},
-				NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
-		}
 		if !value.Null {
 			if days < w.stats.DateStatistics.GetMinimum() {
 				*w.stats.DateStatistics.Minimum = days
@@ -88,10 +75,13 @@ func (w *dateV2Writer) Write(value api.Value) error {
 			*w.indexStats.NumberOfValues++
 		}
 	}
+	w.endRow()
 	return nil
 }
 
 func (w *dateV2Writer) Flush() error {
+	w.flushIndex()
+
 	if w.schema.HasNulls {
 		if err := w.present.Flush(); err != nil {
 			return err
@@ -221,7 +211,7 @@ func (r *DateV2Reader) Skip(rows uint64) error {
 }
 
 func (r *DateV2Reader) SeekStride(stride int) error {
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 1, 1)
 	if err != nil {
 		return err
 	}
@@ -277,24 +267,28 @@ func (r *DateV2Reader) Close() {
 }
 
 func NewTimestampV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
-	stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-		TimestampStatistics: &pb.TimestampStatistics{Minimum: new(int64), MinimumUtc: new(int64), Maximum: new(int64), MaximumUtc: new(int64)}}
+	newStats := func() *pb.ColumnStatistics {
+		stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
+			TimestampStatistics: &pb.TimestampStatistics{Minimum: new(int64), MinimumUtc: new(int64), Maximum: new(int64), MaximumUtc: new(int64)}}
+		*stats.HasNull = schema.HasNulls
+		return stats
+	}
+	stats := newStats()
 	var present stream.Writer
 	if schema.HasNulls {
-		*stats.HasNull = true
 		present = stream.NewBoolWriter(schema.Id, pb.Stream_PRESENT, opts)
 	}
 	var indexStats *pb.ColumnStatistics
 	var index *pb.RowIndex
 	if opts.WriteIndex {
-		indexStats = &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
-			DoubleStatistics: &pb.DoubleStatistics{Maximum: new(float64), Minimum: new(float64), Sum: new(float64)}}
+		indexStats = newStats()
 		index = &pb.RowIndex{}
 	}
 	data := stream.NewIntRLV2Writer(schema.Id, pb.Stream_DATA, opts, true)
 	secondary := stream.NewIntRLV2Writer(schema.Id, pb.Stream_SECONDARY, opts, false)
-	return &timestampWriter{&writer{schema: schema, opts: opts, stats: stats, present: present, index: index,
-		indexStats: indexStats}, data, secondary}
+	base := &writer{schema: schema, opts: opts, stats: stats, present: present, index: index, indexStats: indexStats}
+	base.indexed(newStats, data, secondary)
+	return &timestampWriter{base, data, secondary}
 }
 
 type timestampWriter struct {
@@ -336,30 +330,6 @@ func (w *timestampWriter) Write(value api.Value) error {
 		}
 
 		if w.opts.WriteIndex {
-			w.indexInRows++
-
-			if w.indexInRows >= w.opts.IndexStride {
-				var pp []uint64
-				if w.schema.HasNulls {
-					pp = append(pp, w.present.GetPosition()...)
-				}
-				pp = append(pp, w.data.GetPosition()...)
-				pp = append(pp, w.secondary.GetPosition()...)
-				w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: pp, Statistics: w.indexStats})
-
-				w.indexStats = &pb.ColumnStatistics{
-					TimestampStatistics: &pb.TimestampStatistics{Maximum: new(int64), Minimum: new(int64), MaximumUtc: new(int64), MinimumUtc: new(int64)},
-					NumberOfValues:      new(uint64), HasNull: new(bool)}
-				if w.schema.HasNulls {
-					*w.indexStats.HasNull = true
-				}
-				w.indexInRows = 0
-			}
-
-			if w.indexStats.TimestampStatistics == nil {
-				w.indexStats.TimestampStatistics = &pb.TimestampStatistics{Maximum: new(int64), Minimum: new(int64), MaximumUtc: new(int64), MinimumUtc: new(int64)}
-			}
-
 			if ms > w.indexStats.TimestampStatistics.GetMaximum() {
 				*w.indexStats.TimestampStatistics.Maximum = ms
 			}
@@ -376,11 +346,13 @@ func (w *timestampWriter) Write(value api.Value) error {
 			*w.indexStats.NumberOfValues++
 		}
 	}
-
+	w.endRow()
 	return nil
 }
 
 func (w *timestampWriter) Flush() error {
+	w.flushIndex()
+
 	if w.schema.HasNulls {
 		if err := w.present.Flush(); err != nil {
 			return err
@@ -552,7 +524,7 @@ func (r *TimestampV2Reader) SeekStride(stride int) error {
 	var dataChunk, dataChunkOffset, dataOffset uint64
 	var secondaryChunk, secondaryChunkOffset, secondaryOffset uint64
 
-	pos, err := r.getStridePositions(stride)
+	pos, err := r.getStridePositions(stride, r.present != nil, 2, 2)
 	if err != nil {
 		return err
 	}
diff --git a/orc/column/writer.go b/orc/column/writer.go
index c6ff6b4..a5b7456 100644
--- a/orc/column/writer.go
+++ b/orc/column/writer.go
@@ -20,6 +20,13 @@ type writer struct {
 	indexInRows int
 	indexStats  *pb.ColumnStatistics
 	index       *pb.RowIndex
+	// where the current row group starts, nil if it is at the start of the streams
+	groupPositions []uint64
+
+	// positions of all streams, where the next value will be written
+	positions func() []uint64
+	// empty statistics of a row group
+	newIndexStats func() *pb.ColumnStatistics
 
 	flushed bool
 }
@@ -34,15 +41,58 @@ func (w *writer) reset() {
 	if w.opts.WriteIndex {
 		w.indexInRows = 0
 		w.index.Reset()
-		w.indexStats.Reset()
-		w.indexStats.HasNull = new(bool)
-		w.indexStats.NumberOfValues = new(uint64)
-		w.indexStats.BytesOnDisk = new(uint64)
+		w.indexStats = w.newIndexStats()
+		w.groupPositions = nil
 	}
 
 	// stats will not reset, it's for whole writer
 }
 
+// endRow counts a row for the index, the row has been written to streams and index statistics
+func (w *writer) endRow() {
+	if !w.opts.WriteIndex {
+		return
+	}
+	w.indexInRows++
+	if w.indexInRows >= w.opts.IndexStride {
+		w.endRowGroup()
+	}
+}
+
+// endRowGroup add an entry for rows since last entry, entry's positions are where the first of them starts
+func (w *writer) endRowGroup() {
+	pp := w.positions()
+	if w.groupPositions == nil {
+		w.groupPositions = make([]uint64, len(pp))
+	}
+	w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Positions: w.groupPositions, Statistics: w.indexStats})
+	w.groupPositions = pp
+
+	w.indexStats = w.newIndexStats()
+	w.indexInRows = 0
+}
+
+// flushIndex add an entry for the last rows, which are less than a stride
+func (w *writer) flushIndex() {
+	if w.opts.WriteIndex && w.indexInRows > 0 {
+		w.endRowGroup()
+	}
+}
+
+// indexed set what positions of index are made of
+func (w *writer) indexed(newIndexStats func() *pb.ColumnStatistics, streams ...stream.Writer) {
+	w.newIndexStats = newIndexStats
+	w.positions = func() (pp []uint64) {
+		if w.schema.HasNulls {
+			pp = append(pp, w.present.GetPosition()...)
+		}
+		for _, s := range streams {
+			pp = append(pp, s.GetPosition()...)
+		}
+		return
+	}
+}
+
 func (w writer) GetIndex() *pb.RowIndex {
 	return w.index
 }
diff --git a/orc/stripe.go b/orc/stripe.go
index 228b315..f150dd1 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -26,6 +26,9 @@ type stripeWriter struct {
 	info  *pb.StripeInformation
 	infos []*pb.StripeInformation
 
+	// streams of index of current stripe, update after flush
+	indexInfos []*pb.Stream
+
 	opts *config.WriterOptions
 
 	out io.Writer
@@ -89,17 +92,24 @@ func (stripe *stripeWriter) flushOut() error {
 	}
 
 	if stripe.opts.WriteIndex {
-		for _, c := range stripe.columnWriters {
+		stripe.indexInfos = nil
+		for i, c := range stripe.columnWriters {
 			index := c.GetIndex()
 			var indexData []byte
 			indexData, err := proto.Marshal(index)
 			if err != nil {
 				return err
 			}
-			nd, err := stripe.out.Write(indexData)
+			indexBuf := &bytes.Buffer{}
+			if err = common.CompressingAllInChunks(stripe.opts.CompressionKind, stripe.opts.ChunkSize, indexBuf, bytes.NewBuffer(indexData)); err != nil {
+				return err
+			}
+			nd, err := indexBuf.WriteTo(stripe.out)
 			if err != nil {
 				return errors.WithStack(err)
 			}
+			kind, column, length := pb.Stream_ROW_INDEX, uint32(i), uint64(nd)
+			stripe.indexInfos = append(stripe.indexInfos, &pb.Stream{Kind: &kind, Column: &column, Length: &length})
 			*stripe.info.IndexLength += uint64(nd)
 		}
 		log.Tracef("flush index of length %d", stripe.info.GetIndexLength())
@@ -122,6 +132,7 @@ func (stripe *stripeWriter) flushOut() error {
 func (stripe *stripeWriter) writeFooter() error {
 	footer := &pb.StripeFooter{}
 
+	footer.Streams = append(footer.Streams, stripe.indexInfos...)
 	for _, c := range stripe.columnWriters {
 		footer.Streams = append(footer.Streams, c.GetStreamInfos()...)
 	}
diff --git a/orc/writer.go b/orc/writer.go
index 03eb8b2..1b19fa5 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -139,7 +139,6 @@ var Magic = "ORC"
 
 func (w *writer) writeFileTail() error {
 	// Encode footer
-	// todo: rows in stride
 	ft := &pb.Footer{HeaderLength: &HeaderLength, ContentLength: new(uint64), NumberOfRows: new(uint64)}
 
 	for _, si := range w.stripe.infos {
@@ -149,6 +148,10 @@ func (w *writer) writeFileTail() error {
 	ft.Stripes = w.stripe.infos
 	ft.Types = api.SchemasToTypes(w.schemas)
 	ft.Statistics = w.columnStats
+	if w.opts.WriteIndex {
+		stride := uint32(w.opts.IndexStride)
+		ft.RowIndexStride = &stride
+	}
 
 	// metadata
 
-- 
2.43.0


From ec52534d635d3dc28e9c613a8530bcaf2c2d19e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:21 +0000
Subject: [PATCH 19/40] fix: date, timestamp and decimal conversions hold
 before 1970 and outside UTC

---
 orc/api/vector.go | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index 36fbd0f..28939ef 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -2,6 +2,7 @@ package api
 
 import (
 	"fmt"
+	"math"
 	"time"
 
 	"github.com/patrickhuang888/goorc/pb/pb"
@@ -97,10 +98,10 @@ func (d Decimal64) Float64() float64 {
 		return float64(d.Precision)
 	}
 	if d.Scale > 0 {
-		return float64(d.Precision) * float64(10*d.Scale)
+		return float64(d.Precision) / math.Pow10(d.Scale)
 	}
 	if d.Scale < 0 {
-		return float64(d.Precision) / float64(10*d.Scale)
+		return float64(d.Precision) * math.Pow10(-d.Scale)
 	}
 	return 0
 }
@@ -116,17 +117,23 @@ func (d *Date) String() string {
 	return time.Time(*d).Format("2006-01-02")
 }
 
+const secondsPerDay = 24 * 60 * 60
+
 func FromDays(days int32) Date {
-	d := time.Duration(int64(days) * 24 * int64(time.Hour))
-	t := Date(time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC).Add(d))
+	// duration is not enough for days
+	t := Date(time.Unix(int64(days)*secondsPerDay, 0).UTC())
 	return t
 }
 
 // days from 1970, Jan, 1 UTC
 func ToDays(d Date) int32 {
 	// time.Time(d).UTC() ??
-	s := time.Time(d).Sub(time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC))
-	return int32(s.Hours() / 24)
+	s := time.Time(d).Unix()
+	days := s / secondsPerDay
+	if s%secondsPerDay < 0 {
+		days--
+	}
+	return int32(days)
 }
 
 type Timestamp struct {
@@ -144,25 +151,20 @@ func (t Timestamp) Time() time.Time {
 	return time.Unix(base+t.Seconds, int64(t.Nanos)).In(loc)
 }
 
+// milliseconds since 1970, Jan, 1 UTC
 func (t Timestamp) GetMilliSeconds() int64 {
-	loc := t.Loc
-	if loc == nil {
-		loc = time.UTC
-	}
-	var ms int64
-	baseSec := time.Date(2015, time.January, 1, 0, 0, 0, 0, loc).Unix()
-	ms = (t.Seconds - baseSec) * 1_000
-	ms += int64(t.Nanos / 1_000)
-	return ms
+	tm := t.Time()
+	return tm.Unix()*1_000 + int64(tm.Nanosecond()/1_000_000)
 }
 
+// milliseconds since 1970, Jan, 1 of local clock, as if it is UTC
 func (t Timestamp) GetMilliSecondsUtc() int64 {
-	base := time.Date(2015, time.January, 1, 0, 0, 0, 0, time.UTC).Unix()
-	return base + t.Time().Unix() + int64(t.Nanos/1_000)
+	_, offset := t.Time().Zone()
+	return t.GetMilliSeconds() + int64(offset)*1_000
 }
 
 func GetTimestamp(t time.Time) Timestamp {
-	base := time.Date(2015, 1, 1, 0, 0, 0, 0, time.UTC).Unix()
+	base := time.Date(2015, 1, 1, 0, 0, 0, 0, t.Location()).Unix()
 	return Timestamp{t.Location(), t.Unix() - base, uint64(t.Nanosecond())}
 }
 
-- 
2.43.0


From 486a0112aaecd04fff2f84d49bbf4b05b049fde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:22 +0000
Subject: [PATCH 20/40] fix: column statistics cover exactly the values written

---
 orc/column/binary.go  |  6 +--
 orc/column/bool.go    |  6 ++-
 orc/column/byte.go    | 12 +++---
 orc/column/decimal.go | 97 ++++++++++++++++++++++++++++---------------
 orc/column/float.go   | 38 ++++++++---------
 orc/column/int.go     | 40 ++++++++++--------
 orc/column/list.go    |  2 +-
 orc/column/string.go  | 86 +++++++++++++++++---------------------
 orc/column/struct.go  |  2 +-
 orc/column/time.go    | 73 ++++++++++++++++----------------
 10 files changed, 191 insertions(+), 171 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index 5b09ba0..034ecec 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -54,13 +54,13 @@ func (w *binaryV2Writer) Write(value api.Value) error {
 		if err := w.data.Write(value.V); err != nil {
 			return err
 		}
-		*w.stats.BinaryStatistics.Sum++
+		*w.stats.BinaryStatistics.Sum += int64(len(value.V.([]byte)))
 		*w.stats.NumberOfValues++
 	}
 
 	if w.opts.WriteIndex {
 		if !value.Null {
-			*w.indexStats.BinaryStatistics.Sum++
+			*w.indexStats.BinaryStatistics.Sum += int64(len(value.V.([]byte)))
 			*w.indexStats.NumberOfValues++
 		}
 	}
@@ -85,7 +85,7 @@ func (w *binaryV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	*w.stats.BytesOnDisk += w.length.Info().GetLength()
diff --git a/orc/column/bool.go b/orc/column/bool.go
index 175a811..935f2d0 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -59,7 +59,9 @@ func (w *boolWriter) Write(value api.Value) error {
 	if w.opts.WriteIndex {
 		// no bytes on disk index stats
 		if !value.Null {
-			(*w.indexStats.BucketStatistics).Count[0]++
+			if value.V.(bool) {
+				(*w.indexStats.BucketStatistics).Count[0]++
+			}
 			*w.indexStats.NumberOfValues++
 		}
 	}
@@ -80,7 +82,7 @@ func (w *boolWriter) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	w.flushed = true
diff --git a/orc/column/byte.go b/orc/column/byte.go
index e80e0c0..301cc2e 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -12,7 +12,8 @@ import (
 
 func newByteWriter(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
 	newStats := func() *pb.ColumnStatistics {
-		stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64), BinaryStatistics: &pb.BinaryStatistics{Sum: new(int64)}}
+		stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64),
+			IntStatistics: &pb.IntegerStatistics{Minimum: new(int64), Maximum: new(int64), Sum: new(int64)}}
 		*stats.HasNull = schema.HasNulls
 		return stats
 	}
@@ -49,15 +50,14 @@ func (w *byteWriter) Write(value api.Value) error {
 		if err := w.data.Write(value.V); err != nil {
 			return err
 		}
-		*w.stats.BinaryStatistics.Sum++
-		*w.stats.NumberOfValues++ // makeSure:
+		// tinyint is signed
+		updateIntStats(w.stats, int64(int8(value.V.(byte))))
 	}
 
 	if w.opts.WriteIndex {
 		// java impl does not write index statistic bytes on disk, has nulls ...
 		if !value.Null {
-			*w.indexStats.BinaryStatistics.Sum++
-			*w.indexStats.NumberOfValues++
+			updateIntStats(w.indexStats, int64(int8(value.V.(byte))))
 		}
 	}
 	w.endRow()
@@ -85,7 +85,7 @@ func (w *byteWriter) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 
diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index 2607793..ee02d90 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -1,10 +1,10 @@
 package column
 
 import (
-	"fmt"
 	orcio "github.com/patrickhuang888/goorc/orc/io"
 	"io"
-	"strconv"
+	"math/big"
+	"strings"
 
 	"github.com/pkg/errors"
 
@@ -60,44 +60,73 @@ func (w *decimalV2Writer) Write(value api.Value) error {
 		if err := w.secondary.Write(int64(d.Scale)); err != nil {
 			return err
 		}
-		s := d.String()
-		if s < w.stats.DecimalStatistics.GetMinimum() {
-			*w.stats.DecimalStatistics.Minimum = s
-		}
-		if s > w.stats.DecimalStatistics.GetMaximum() {
-			*w.stats.DecimalStatistics.Maximum = s
-		}
-		var sum float64
-		var err error
-		if w.stats.DecimalStatistics.GetSum() != "" {
-			if sum, err = strconv.ParseFloat(w.stats.DecimalStatistics.GetSum(), 64); err != nil {
-				return errors.WithStack(err)
-			}
-		}
-		sum += d.Float64()
-		*w.stats.DecimalStatistics.Sum = fmt.Sprintf("%f", sum)
-		*w.stats.NumberOfValues++
+		updateDecimalStats(w.stats, d)
+	}
 
-		if w.opts.WriteIndex {
-			if s < w.indexStats.DecimalStatistics.GetMinimum() {
-				*w.indexStats.DecimalStatistics.Minimum = s
-			}
-			if s > w.indexStats.DecimalStatistics.GetMaximum() {
-				*w.stats.DecimalStatistics.Maximum = s
-			}
-			indexSum, err := strconv.ParseFloat(w.indexStats.DecimalStatistics.GetSum(), 64)
-			if err != nil {
-				return errors.WithStack(err)
-			}
-			indexSum += d.Float64()
-			*w.stats.DecimalStatistics.Sum = fmt.Sprintf("%f", indexSum)
-			*w.indexStats.NumberOfValues++
+	if w.opts.WriteIndex {
+		if !value.Null {
+			updateDecimalStats(w.indexStats, value.V.(api.Decimal64))
 		}
 	}
 	w.endRow()
 	return nil
 }
 
+// MaxDecimalScale decimals of larger scale have no statistics
+const MaxDecimalScale = 128
+
+// minimum, maximum and sum are decimal strings, they will be dropped if there is a scale too large
+func updateDecimalStats(stats *pb.ColumnStatistics, d api.Decimal64) {
+	ds := stats.DecimalStatistics
+	first := *stats.NumberOfValues == 0
+	*stats.NumberOfValues++
+
+	if d.Scale > MaxDecimalScale || d.Scale < -MaxDecimalScale {
+		ds.Minimum, ds.Maximum, ds.Sum = nil, nil, nil
+	}
+	if ds.Sum == nil {
+		return
+	}
+
+	s := decimalString(d)
+	v, _ := new(big.Rat).SetString(s)
+	if min, ok := new(big.Rat).SetString(ds.GetMinimum()); first || (ok && v.Cmp(min) < 0) {
+		*ds.Minimum = s
+	}
+	if max, ok := new(big.Rat).SetString(ds.GetMaximum()); first || (ok && v.Cmp(max) > 0) {
+		*ds.Maximum = s
+	}
+	if first {
+		*ds.Sum = s
+		return
+	}
+	if sum, ok := new(big.Rat).SetString(ds.GetSum()); ok {
+		scale := fractionLen(ds.GetSum())
+		if fractionLen(s) > scale {
+			scale = fractionLen(s)
+		}
+		*ds.Sum = sum.Add(sum, v).FloatString(scale)
+	}
+}
+
+func decimalString(d api.Decimal64) string {
+	v := new(big.Rat).SetInt64(d.Precision)
+	exp := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(d.Scale)), nil)
+	if d.Scale >= 0 {
+		return v.Quo(v, new(big.Rat).SetInt(exp)).FloatString(d.Scale)
+	}
+	exp.Exp(big.NewInt(10), big.NewInt(int64(-d.Scale)), nil)
+	return v.Mul(v, new(big.Rat).SetInt(exp)).FloatString(0)
+}
+
+// number of digits after the decimal point
+func fractionLen(s string) int {
+	if i := strings.IndexByte(s, '.'); i != -1 {
+		return len(s) - i - 1
+	}
+	return 0
+}
+
 func (w *decimalV2Writer) Flush() error {
 	w.flushIndex()
 
@@ -105,7 +134,7 @@ func (w *decimalV2Writer) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	if err := w.data.Flush(); err != nil {
 		return err
diff --git a/orc/column/float.go b/orc/column/float.go
index 2c2b12f..b699c97 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -2,6 +2,7 @@ package column
 
 import (
 	"io"
+	"math"
 
 	"github.com/patrickhuang888/goorc/orc/api"
 	"github.com/patrickhuang888/goorc/orc/config"
@@ -198,45 +199,42 @@ func (w *floatWriter) Write(value api.Value) error {
 		}
 	}
 
+	var v float64
 	if !value.Null {
 		if err := w.data.Write(value.V); err != nil {
 			return err
 		}
-		var v float64
 		if w.is64 {
 			v = value.V.(float64)
 		} else {
 			v = float64(value.V.(float32))
 		}
 
-		*w.stats.DoubleStatistics.Sum += v
-		*w.stats.NumberOfValues++
-		if v < *w.stats.DoubleStatistics.Minimum {
-			*w.stats.DoubleStatistics.Minimum = v
-		}
-		if v > *w.stats.DoubleStatistics.Maximum {
-			*w.stats.DoubleStatistics.Maximum = v
-		}
+		updateDoubleStats(w.stats, v)
 	}
 
 	if w.opts.WriteIndex {
 		if !value.Null {
-			v := value.V.(float64)
-			*w.indexStats.DoubleStatistics.Sum += v
-			if v < *w.indexStats.DoubleStatistics.Minimum {
-				*w.indexStats.DoubleStatistics.Minimum = v
-			}
-			if v > *w.indexStats.DoubleStatistics.Maximum {
-				*w.indexStats.DoubleStatistics.Maximum = v
-			}
-
-			*w.indexStats.NumberOfValues++
+			updateDoubleStats(w.indexStats, v)
 		}
 	}
 	w.endRow()
 	return nil
 }
 
+// NaN is neither minimum nor maximum, unless there are no other values
+func updateDoubleStats(stats *pb.ColumnStatistics, v float64) {
+	ds := stats.DoubleStatistics
+	*ds.Sum += v
+	if *stats.NumberOfValues == 0 || v < *ds.Minimum || math.IsNaN(*ds.Minimum) {
+		*ds.Minimum = v
+	}
+	if *stats.NumberOfValues == 0 || v > *ds.Maximum || math.IsNaN(*ds.Maximum) {
+		*ds.Maximum = v
+	}
+	*stats.NumberOfValues++
+}
+
 func (w *floatWriter) Flush() error {
 	w.flushIndex()
 	w.flushed = true
@@ -250,7 +248,7 @@ func (w *floatWriter) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	return nil
diff --git a/orc/column/int.go b/orc/column/int.go
index 69bf6c8..0ca234e 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -76,32 +76,38 @@ func (w *intWriter) Write(value api.Value) error {
 		if err := w.data.Write(v); err != nil {
 			return err
 		}
-		*w.stats.IntStatistics.Sum += v
-		if v < *w.stats.IntStatistics.Minimum {
-			*w.stats.IntStatistics.Minimum = v
-		}
-		if v > *w.stats.IntStatistics.Maximum {
-			*w.stats.IntStatistics.Maximum = v
-		}
-		*w.stats.NumberOfValues++
+		updateIntStats(w.stats, v)
 	}
 
 	if w.opts.WriteIndex {
 		if !value.Null {
-			*w.indexStats.IntStatistics.Sum += v
-			if v < *w.indexStats.IntStatistics.Minimum {
-				*w.indexStats.IntStatistics.Minimum = v
-			}
-			if v > *w.indexStats.IntStatistics.Maximum {
-				*w.indexStats.IntStatistics.Maximum = v
-			}
-			*w.indexStats.NumberOfValues++
+			updateIntStats(w.indexStats, v)
 		}
 	}
 	w.endRow()
 	return nil
 }
 
+// sum will be dropped when overflow
+func updateIntStats(stats *pb.ColumnStatistics, v int64) {
+	is := stats.IntStatistics
+	if is.Sum != nil {
+		sum := *is.Sum + v
+		if (v > 0 && sum < *is.Sum) || (v < 0 && sum > *is.Sum) {
+			is.Sum = nil
+		} else {
+			*is.Sum = sum
+		}
+	}
+	if *stats.NumberOfValues == 0 || v < *is.Minimum {
+		*is.Minimum = v
+	}
+	if *stats.NumberOfValues == 0 || v > *is.Maximum {
+		*is.Maximum = v
+	}
+	*stats.NumberOfValues++
+}
+
 func (w intWriter) Size() int {
 	if w.schema.HasNulls {
 		return w.present.Size() + w.data.Size()
@@ -116,7 +122,7 @@ func (w intWriter) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	if err := w.data.Flush(); err != nil {
 		return err
diff --git a/orc/column/list.go b/orc/column/list.go
index 31d710c..7f2563f 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -250,7 +250,7 @@ func (w *listV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.length.Info().GetLength()
 	return nil
diff --git a/orc/column/string.go b/orc/column/string.go
index 2b81d66..5b5aa18 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -54,7 +54,6 @@ func (w *stringDirectV2Writer) Write(value api.Value) error {
 		}
 	}
 
-	var dataLength int
 	if !value.Null {
 		s, ok := value.V.(string)
 		if !ok {
@@ -62,7 +61,7 @@ func (w *stringDirectV2Writer) Write(value api.Value) error {
 		}
 		// string encoded in utf-8
 		data := []byte(s)
-		dataLength = len(data)
+		dataLength := len(data)
 		if err := w.data.Write(data); err != nil {
 			return err
 		}
@@ -70,61 +69,50 @@ func (w *stringDirectV2Writer) Write(value api.Value) error {
 			return err
 		}
 
-		*w.stats.NumberOfValues++
-		*w.stats.StringStatistics.Sum += int64(dataLength)
-		if w.stats.StringStatistics.Minimum != nil && s < w.stats.StringStatistics.GetMinimum() {
-			*w.stats.StringStatistics.Minimum = s
-		}
-		if w.stats.StringStatistics.Maximum != nil && s > w.stats.StringStatistics.GetMaximum() {
-			*w.stats.StringStatistics.Maximum = s
-		}
-
-		if dataLength >= MaxByteLength {
-			w.stats.StringStatistics.LowerBound = w.stats.StringStatistics.Minimum
-			w.stats.StringStatistics.Minimum = nil
-			w.stats.StringStatistics.UpperBound = w.stats.StringStatistics.Maximum
-			w.stats.StringStatistics.Maximum = nil
-		}
-
-		if w.stats.StringStatistics.LowerBound != nil && s < w.stats.StringStatistics.GetMaximum() {
-			*w.stats.StringStatistics.LowerBound = s
-		}
-		if w.stats.StringStatistics.UpperBound != nil && s > w.stats.StringStatistics.GetMaximum() {
-			*w.stats.StringStatistics.UpperBound = s
-		}
+		updateStringStats(w.stats, s)
 	}
 
 	if w.opts.WriteIndex {
 
 		if !value.Null {
-			*w.indexStats.NumberOfValues++
-			*w.indexStats.StringStatistics.Sum += int64(dataLength)
-			s := value.V.(string)
+			updateStringStats(w.indexStats, value.V.(string))
+		}
+	}
+	w.endRow()
+	return nil
+}
 
-			if w.indexStats.StringStatistics.Minimum != nil && s < w.indexStats.StringStatistics.GetMinimum() {
-				*w.indexStats.StringStatistics.Minimum = s
-			}
-			if w.indexStats.StringStatistics.Maximum != nil && s > w.indexStats.StringStatistics.GetMaximum() {
-				*w.indexStats.StringStatistics.Maximum = s
-			}
+// string too long will be a bound instead of minimum or maximum
+func updateStringStats(stats *pb.ColumnStatistics, s string) {
+	ss := stats.StringStatistics
+	long := len(s) >= MaxByteLength
 
-			if dataLength >= MaxByteLength {
-				w.indexStats.StringStatistics.LowerBound = w.indexStats.StringStatistics.Minimum
-				w.indexStats.StringStatistics.Minimum = nil
-				w.indexStats.StringStatistics.UpperBound = w.indexStats.StringStatistics.Maximum
-				w.indexStats.StringStatistics.Maximum = nil
-			}
+	min := ss.GetMinimum()
+	if ss.LowerBound != nil {
+		min = ss.GetLowerBound()
+	}
+	if *stats.NumberOfValues == 0 || s < min {
+		if long {
+			ss.Minimum, ss.LowerBound = nil, &s
+		} else {
+			ss.Minimum, ss.LowerBound = &s, nil
+		}
+	}
 
-			if w.indexStats.StringStatistics.LowerBound != nil && s < w.indexStats.StringStatistics.GetMaximum() {
-				*w.indexStats.StringStatistics.LowerBound = s
-			}
-			if w.indexStats.StringStatistics.UpperBound != nil && s > w.indexStats.StringStatistics.GetMaximum() {
-				*w.indexStats.StringStatistics.UpperBound = s
-			}
+	max := ss.GetMaximum()
+	if ss.UpperBound != nil {
+		max = ss.GetUpperBound()
+	}
+	if *stats.NumberOfValues == 0 || s > max {
+		if long {
+			ss.Maximum, ss.UpperBound = nil, &s
+		} else {
+			ss.Maximum, ss.UpperBound = &s, nil
 		}
 	}
-	w.endRow()
-	return nil
+
+	*ss.Sum += int64(len(s))
+	*stats.NumberOfValues++
 }
 
 func (w *stringDirectV2Writer) Flush() error {
@@ -143,7 +131,7 @@ func (w *stringDirectV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	*w.stats.BytesOnDisk += w.length.Info().GetLength()
@@ -699,7 +687,7 @@ func (w *stringDictionaryV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.dataStream.Info().GetLength()
 	*w.stats.BytesOnDisk += w.dictStream.Info().GetLength()
diff --git a/orc/column/struct.go b/orc/column/struct.go
index 631d2b6..f7a6f55 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -213,7 +213,7 @@ func (w *structWriter) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	w.flushed = true
 	return nil
diff --git a/orc/column/time.go b/orc/column/time.go
index 7968a80..67e72f0 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -55,10 +55,10 @@ func (w *dateV2Writer) Write(value api.Value) error {
 		if err := w.data.Write(int64(days)); err != nil {
 			return err
 		}
-		if days < w.stats.DateStatistics.GetMinimum() {
+		if *w.stats.NumberOfValues == 0 || days < w.stats.DateStatistics.GetMinimum() {
 			*w.stats.DateStatistics.Minimum = days
 		}
-		if days > w.stats.DateStatistics.GetMaximum() {
+		if *w.stats.NumberOfValues == 0 || days > w.stats.DateStatistics.GetMaximum() {
 			*w.stats.DateStatistics.Maximum = days
 		}
 		*w.stats.NumberOfValues++
@@ -66,11 +66,11 @@ func (w *dateV2Writer) Write(value api.Value) error {
 
 	if w.opts.WriteIndex {
 		if !value.Null {
-			if days < w.stats.DateStatistics.GetMinimum() {
-				*w.stats.DateStatistics.Minimum = days
+			if *w.indexStats.NumberOfValues == 0 || days < w.indexStats.DateStatistics.GetMinimum() {
+				*w.indexStats.DateStatistics.Minimum = days
 			}
-			if days > w.stats.DateStatistics.GetMaximum() {
-				*w.stats.DateStatistics.Maximum = days
+			if *w.indexStats.NumberOfValues == 0 || days > w.indexStats.DateStatistics.GetMaximum() {
+				*w.indexStats.DateStatistics.Maximum = days
 			}
 			*w.indexStats.NumberOfValues++
 		}
@@ -92,7 +92,7 @@ func (w *dateV2Writer) Flush() error {
 	}
 
 	if w.schema.HasNulls {
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	*w.stats.BytesOnDisk += w.data.Info().GetLength()
 	w.flushed = true
@@ -313,43 +313,40 @@ func (w *timestampWriter) Write(value api.Value) error {
 			return err
 		}
 
-		*w.stats.NumberOfValues++
-		ms := t.GetMilliSeconds()
-		if ms < w.stats.TimestampStatistics.GetMinimum() {
-			*w.stats.TimestampStatistics.Minimum = ms
-		}
-		if ms > w.stats.TimestampStatistics.GetMaximum() {
-			*w.stats.TimestampStatistics.Maximum = ms
-		}
-		msUtc := t.GetMilliSecondsUtc()
-		if ms < w.stats.TimestampStatistics.GetMinimumUtc() {
-			*w.stats.TimestampStatistics.Minimum = msUtc
-		}
-		if ms > w.stats.TimestampStatistics.GetMaximum() {
-			*w.stats.TimestampStatistics.MaximumUtc = msUtc
-		}
-
-		if w.opts.WriteIndex {
-			if ms > w.indexStats.TimestampStatistics.GetMaximum() {
-				*w.indexStats.TimestampStatistics.Maximum = ms
-			}
-			if ms < w.indexStats.TimestampStatistics.GetMinimum() {
-				*w.indexStats.TimestampStatistics.Minimum = ms
-			}
-			if msUtc > w.indexStats.TimestampStatistics.GetMaximumUtc() {
-				*w.indexStats.TimestampStatistics.MaximumUtc = msUtc
-			}
-			if msUtc < w.indexStats.TimestampStatistics.GetMinimumUtc() {
-				*w.indexStats.TimestampStatistics.Minimum = msUtc
-			}
+		updateTimestampStats(w.stats, t)
+	}
 
-			*w.indexStats.NumberOfValues++
+	if w.opts.WriteIndex {
+		if !value.Null {
+			updateTimestampStats(w.indexStats, value.V.(api.Timestamp))
 		}
 	}
 	w.endRow()
 	return nil
 }
 
+func updateTimestampStats(stats *pb.ColumnStatistics, t api.Timestamp) {
+	ts := stats.TimestampStatistics
+	first := *stats.NumberOfValues == 0
+
+	ms := t.GetMilliSeconds()
+	if first || ms < ts.GetMinimum() {
+		*ts.Minimum = ms
+	}
+	if first || ms > ts.GetMaximum() {
+		*ts.Maximum = ms
+	}
+	msUtc := t.GetMilliSecondsUtc()
+	if first || msUtc < ts.GetMinimumUtc() {
+		*ts.MinimumUtc = msUtc
+	}
+	if first || msUtc > ts.GetMaximumUtc() {
+		*ts.MaximumUtc = msUtc
+	}
+
+	*stats.NumberOfValues++
+}
+
 func (w *timestampWriter) Flush() error {
 	w.flushIndex()
 
@@ -357,7 +354,7 @@ func (w *timestampWriter) Flush() error {
 		if err := w.present.Flush(); err != nil {
 			return err
 		}
-		*w.stats.BytesOnDisk = w.present.Info().GetLength()
+		*w.stats.BytesOnDisk += w.present.Info().GetLength()
 	}
 	if err := w.data.Flush(); err != nil {
 		return err
-- 
2.43.0


From 5d7298dc37d2704de7edc2e044fedd79ad46ec72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:14 +0000
Subject: [PATCH 21/40] fix: broken lengths and positions of streams are errors

---
 orc/encoding/string.go | 13 +++++++++++++
 orc/stream/reader.go   | 19 ++++++++++++-------
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/orc/encoding/string.go b/orc/encoding/string.go
index 7d70a6b..71aa527 100644
--- a/orc/encoding/string.go
+++ b/orc/encoding/string.go
@@ -7,6 +7,8 @@ import (
 	"github.com/pkg/errors"
 )
 
+const maxBytesAtOnce = 1024 * 1024
+
 func NewStringContentsEncoder() Encoder {
 	return &stringContents{}
 }
@@ -35,6 +37,17 @@ func (e *stringContents) GetPosition() []uint64 {
 }
 
 func DecodeBytes(in io.Reader, length int) ([]byte, error) {
+	if length < 0 {
+		return nil, errors.Errorf("bytes length %d error", length)
+	}
+	if length > maxBytesAtOnce { // length may be broken, memory follows what is really there
+		buf := &bytes.Buffer{}
+		if _, err := io.CopyN(buf, in, int64(length)); err != nil {
+			return nil, errors.WithStack(err)
+		}
+		return buf.Bytes(), nil
+	}
+
 	value := make([]byte, length)
 	if _, err := io.ReadFull(in, value); err != nil {
 		return nil, err
diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index 8678980..bf76fbe 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -34,8 +34,7 @@ type reader struct {
 func newReader(opts *config.ReaderOptions, info *pb.Stream, start uint64, f orcio.File) *reader {
 	var cmpBuf *bytes.Buffer
 	if opts.CompressionKind != pb.CompressionKind_NONE {
-		cmpBuf = bytes.NewBuffer(make([]byte, opts.ChunkSize))
-		cmpBuf.Reset()
+		cmpBuf = &bytes.Buffer{}
 	}
 	return &reader{opts: opts, info: info, start: start, f: f, buf: &bytes.Buffer{}, cmpBuf: cmpBuf}
 }
@@ -49,12 +48,14 @@ func (r *reader) ReadByte() (b byte, err error) {
 		return
 	}
 
-	if r.readLength >= r.info.GetLength() {
-		return 0, errors.Wrapf(io.EOF, "stream %s to the end", r.info.String())
-	}
+	for r.buf.Len() == 0 { // a chunk may be empty
+		if r.readLength >= r.info.GetLength() {
+			return 0, errors.Wrapf(io.EOF, "stream %s to the end", r.info.String())
+		}
 
-	if err = r.readAChunk(); err != nil {
-		return 0, err
+		if err = r.readAChunk(); err != nil {
+			return 0, err
+		}
 	}
 	logger.Tracef("stream %s reading, has been read %d bytes", r.info.String(), r.readLength)
 	b, err = r.buf.ReadByte()
@@ -112,6 +113,10 @@ func (r *reader) seek(chunk uint64, chunkOffset uint64) error {
 	if err := r.readAChunk(); err != nil {
 		return err
 	}
+
+	if chunkOffset > uint64(r.buf.Len()) {
+		return errors.Errorf("stream %s has no position %d %d", r.info.String(), chunk, chunkOffset)
+	}
 	r.buf.Next(int(chunkOffset))
 	return nil
 }
-- 
2.43.0


From 25cee3c7fab81f925a8c57b3278e740597b5fadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:32 +0000
Subject: [PATCH 22/40] fix: schemas are numbered without shared state and all
 their children are verified

---
 orc/api/type.go | 56 ++++++++++++++++++++++++-------------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/orc/api/type.go b/orc/api/type.go
index 2c62436..941ba3a 100755
--- a/orc/api/type.go
+++ b/orc/api/type.go
@@ -44,10 +44,10 @@ func (td *TypeDescription) AddChild(name string, value *TypeDescription) {
 }
 
 func (td TypeDescription) CreateVector(opt *BatchOption) (*ColumnVector, error) {
-	if opt.RowSize == 0 {
+	if opt.RowSize <= 0 {
 		return nil, errors.New("RowSize == 0")
 	}
-	if err := td.verifySchema(); err != nil {
+	if err := td.verifySchema(opt); err != nil {
 		return nil, err
 	}
 
@@ -82,7 +82,12 @@ func (td TypeDescription) createListVector(opt *BatchOption) *ColumnVector {
 }
 
 func (td TypeDescription) createMapVector(opt *BatchOption) *ColumnVector {
-	cv := &ColumnVector{Id: td.Id, Kind: td.Kind, Vector: make([]Value, opt.RowSize)}
+	var cv *ColumnVector
+	if opt.NotCreateVector {
+		cv = &ColumnVector{Id: td.Id, Kind: td.Kind}
+	} else {
+		cv = &ColumnVector{Id: td.Id, Kind: td.Kind, Vector: make([]Value, opt.RowSize)}
+	}
 	cv.Children = append(cv.Children, td.Children[0].createVector(opt))
 	cv.Children = append(cv.Children, td.Children[1].createVector(opt))
 	return cv
@@ -157,13 +162,18 @@ func (td TypeDescription) createVector(opt *BatchOption) *ColumnVector {
 	return nil
 }
 
-func (td TypeDescription) verifySchema() error {
+func (td TypeDescription) verifySchema(opt *BatchOption) error {
 	if td.Kind == pb.Type_STRUCT || td.Kind == pb.Type_UNION || td.Kind == pb.Type_MAP || td.Kind == pb.Type_LIST {
+		if td.Kind == pb.Type_UNION && opt.IsInclude(td.Id) {
+			return errors.New("union not impl")
+		}
 		for _, c := range td.Children {
-			if td.HasNulls && c.HasNulls {
-				return errors.New("struct column has nulls cannot have nulls children")
+			if td.Kind != pb.Type_STRUCT && opt.IsInclude(td.Id) && !opt.IsInclude(c.Id) {
+				return errors.Errorf("column %d is included, but its child %d is not", td.Id, c.Id)
+			}
+			if err := c.verifySchema(opt); err != nil {
+				return err
 			}
-			return c.verifySchema()
 		}
 	}
 	return nil
@@ -209,17 +219,13 @@ func CheckId(root *TypeDescription) error {
 	return nil
 }
 
-func addId(node *TypeDescription) error {
-	node.Id = _nodeId
-	_nodeId++
-	return nil
-}
-
-var _nodeId uint32
-
 func SetId(root *TypeDescription) error {
-	_nodeId = uint32(0)
-	return traverse(root, addId)
+	nodeId := uint32(0)
+	return traverse(root, func(node *TypeDescription) error {
+		node.Id = nodeId
+		nodeId++
+		return nil
+	})
 }
 
 func CheckNulls(root *TypeDescription) error {
@@ -249,25 +255,17 @@ func checkNoNull(node *TypeDescription) error {
 	return nil
 }
 
-var _schemas []*TypeDescription
-
 func (root *TypeDescription) Flat() (schemas []*TypeDescription, err error) {
 	if err = CheckId(root); err != nil {
 		return
 	}
-	_schemas = nil
-	if err = traverse(root, addSchema); err != nil {
-		return
-	}
-	schemas = _schemas
+	err = traverse(root, func(node *TypeDescription) error {
+		schemas = append(schemas, node)
+		return nil
+	})
 	return
 }
 
-func addSchema(node *TypeDescription) error {
-	_schemas = append(_schemas, node)
-	return nil
-}
-
 // pre-order traverse
 func traverse(node *TypeDescription, do action) error {
 	if err := do(node); err != nil {
-- 
2.43.0


From 9c9ab2a4c63d9ca59e584394d4f8863767915241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:33 +0000
Subject: [PATCH 23/40] fix: nested, dictionary and nullable columns round
 trip, and broken stripes are errors

---
 orc/column/binary.go  |  16 ++--
 orc/column/bool.go    |  11 +--
 orc/column/byte.go    |  13 +--
 orc/column/decimal.go |  44 ++++-----
 orc/column/float.go   |  11 +--
 orc/column/int.go     |  14 ++-
 orc/column/list.go    |  35 ++++----
 orc/column/map.go     |  69 +++++++-------
 orc/column/package.go |  28 ++++++
 orc/column/reader.go  |  70 +++++++++++++++
 orc/column/string.go  | 151 +++++++++++++------------------
 orc/column/struct.go  |  58 ++++++------
 orc/column/time.go    |  51 ++++++-----
 orc/column/writer.go  |   5 ++
 orc/stream/bool.go    |   4 +-
 orc/stream/byte.go    |   4 +-
 orc/stream/float.go   |   2 +-
 orc/stream/int.go     |   8 +-
 orc/stream/string.go  |   4 +-
 orc/stream/time.go    |   4 +-
 orc/stripe.go         | 203 ++++++++++++++++++++++++++----------------
 21 files changed, 457 insertions(+), 348 deletions(-)

diff --git a/orc/column/binary.go b/orc/column/binary.go
index 034ecec..e08fa7a 100644
--- a/orc/column/binary.go
+++ b/orc/column/binary.go
@@ -54,6 +54,9 @@ func (w *binaryV2Writer) Write(value api.Value) error {
 		if err := w.data.Write(value.V); err != nil {
 			return err
 		}
+		if err := w.length.Write(uint64(len(value.V.([]byte)))); err != nil {
+			return err
+		}
 		*w.stats.BinaryStatistics.Sum += int64(len(value.V.([]byte)))
 		*w.stats.NumberOfValues++
 	}
@@ -144,25 +147,20 @@ type BinaryV2Reader struct {
 }
 
 func (r *BinaryV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.open(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			return errors.New("has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 	case pb.Stream_DATA:
 		r.data = stream.NewStringContentsReader(r.opts, info, startOffset, f)
 	case pb.Stream_LENGTH:
 		r.length = stream.NewIntRLV2Reader(r.opts, info, startOffset, false, f)
 	default:
+		f.Close()
 		return errors.New("stream kind not unknown")
 	}
 	return nil
@@ -186,7 +184,7 @@ func (r *BinaryV2Reader) Skip(rows uint64) error {
 				return err
 			}
 			if _, err = r.data.NextBytes(l); err != nil {
-				return nil
+				return err
 			}
 		}
 	}
@@ -196,7 +194,7 @@ func (r *BinaryV2Reader) Skip(rows uint64) error {
 func (r *BinaryV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present!=nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/bool.go b/orc/column/bool.go
index 935f2d0..7eab67e 100644
--- a/orc/column/bool.go
+++ b/orc/column/bool.go
@@ -138,18 +138,12 @@ type BoolReader struct {
 }
 
 func (r *BoolReader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.open(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	if info.GetKind() == pb.Stream_PRESENT {
-		if !r.schema.HasNulls {
-			return errors.New("column schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 		return nil
 	}
@@ -157,13 +151,14 @@ func (r *BoolReader) InitStream(info *pb.Stream, startOffset uint64) error {
 		r.data = stream.NewBoolReader(r.opts, info, startOffset, f)
 		return nil
 	}
+	f.Close()
 	return errors.New("stream kind error")
 }
 
 func (r *BoolReader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/byte.go b/orc/column/byte.go
index 301cc2e..b4e4771 100644
--- a/orc/column/byte.go
+++ b/orc/column/byte.go
@@ -135,24 +135,19 @@ func NewByteReader(schema *api.TypeDescription, opts *config.ReaderOptions, f or
 }
 
 func (r *ByteReader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.open(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			return errors.New("column schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 	case pb.Stream_DATA:
 		r.data = stream.NewByteReader(r.opts, info, startOffset, f)
 	default:
-		err = errors.New("stream kind error")
+		f.Close()
+		return errors.New("stream kind error")
 	}
 	return nil
 }
@@ -160,7 +155,7 @@ func (r *ByteReader) InitStream(info *pb.Stream, startOffset uint64) error {
 func (r *ByteReader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present!=nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/decimal.go b/orc/column/decimal.go
index ee02d90..ffd4d1c 100644
--- a/orc/column/decimal.go
+++ b/orc/column/decimal.go
@@ -203,25 +203,20 @@ type DecimalV2Reader struct {
 }
 
 func (r *DecimalV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.open(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			return errors.New("schema no present stream")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 	case pb.Stream_DATA:
 		r.data = stream.NewVarIntReader(r.opts, info, startOffset, f)
 	case pb.Stream_SECONDARY:
 		r.secondary = stream.NewIntRLV2Reader(r.opts, info, startOffset, true, f)
 	default:
+		f.Close()
 		return errors.New("stream kind error")
 	}
 	return nil
@@ -230,7 +225,7 @@ func (r *DecimalV2Reader) InitStream(info *pb.Stream, startOffset uint64) error
 func (r *DecimalV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
@@ -246,9 +241,7 @@ func (r *DecimalV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if scale, err = r.secondary.NextInt64(); err != nil {
 				return err
 			}
-			d:= vec.Vector[i].V.(api.Decimal64)
-			d.Precision= precision
-			d.Scale= int(scale)
+			vec.Vector[i].V = api.Decimal64{Precision: precision, Scale: int(scale)}
 		}
 	}
 	return nil
@@ -293,7 +286,8 @@ func (r *DecimalV2Reader) SeekStride(stride int) error {
 		return nil
 	}
 
-	var dataChunk, dataChunkOffset, dataOffset uint64
+	// variable length integers have no position in a run
+	var dataChunk, dataChunkOffset uint64
 	var secondaryChunk, secondaryChunkOffset, secondaryOffset uint64
 
 	pos, err := r.getStridePositions(stride, r.present != nil, 2, 1)
@@ -309,9 +303,8 @@ func (r *DecimalV2Reader) SeekStride(stride int) error {
 			pOffset2 = pos[2]
 
 			dataChunkOffset = pos[3]
-			dataOffset = pos[4]
-			secondaryChunkOffset = pos[5]
-			secondaryOffset = pos[6]
+			secondaryChunkOffset = pos[4]
+			secondaryOffset = pos[5]
 
 		} else {
 			pChunk = pos[0]
@@ -321,10 +314,9 @@ func (r *DecimalV2Reader) SeekStride(stride int) error {
 
 			dataChunk = pos[4]
 			dataChunkOffset = pos[5]
-			dataOffset = pos[6]
-			secondaryChunk = pos[7]
-			secondaryChunkOffset = pos[8]
-			secondaryOffset = pos[9]
+			secondaryChunk = pos[6]
+			secondaryChunkOffset = pos[7]
+			secondaryOffset = pos[8]
 		}
 
 		if err = r.present.Seek(pChunk, pChunkOffset, pOffset1, pOffset2); err != nil {
@@ -335,20 +327,18 @@ func (r *DecimalV2Reader) SeekStride(stride int) error {
 
 		if r.opts.CompressionKind == pb.CompressionKind_NONE {
 			dataChunkOffset = pos[0]
-			dataOffset = pos[1]
-			secondaryChunkOffset = pos[2]
-			secondaryOffset = pos[3]
+			secondaryChunkOffset = pos[1]
+			secondaryOffset = pos[2]
 		} else {
 			dataChunk = pos[0]
 			dataChunkOffset = pos[1]
-			dataOffset = pos[2]
-			secondaryChunk = pos[3]
-			secondaryChunkOffset = pos[4]
-			secondaryOffset = pos[5]
+			secondaryChunk = pos[2]
+			secondaryChunkOffset = pos[3]
+			secondaryOffset = pos[4]
 		}
 	}
 
-	if err = r.data.Seek(dataChunk, dataChunkOffset, dataOffset); err != nil {
+	if err = r.data.Seek(dataChunk, dataChunkOffset, 0); err != nil {
 		return err
 	}
 	if err = r.secondary.Seek(secondaryChunk, secondaryChunkOffset, secondaryOffset); err != nil {
diff --git a/orc/column/float.go b/orc/column/float.go
index b699c97..1f29531 100644
--- a/orc/column/float.go
+++ b/orc/column/float.go
@@ -25,23 +25,18 @@ type FloatReader struct {
 }
 
 func (r *FloatReader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.open(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err = f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			return errors.New("schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 	case pb.Stream_DATA:
 		r.data = stream.NewFloatReader(r.opts, info, startOffset, f, r.is64)
 	default:
+		f.Close()
 		return errors.New("stream kind error")
 	}
 	return nil
@@ -50,7 +45,7 @@ func (r *FloatReader) InitStream(info *pb.Stream, startOffset uint64) error {
 func (r *FloatReader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present!=nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/int.go b/orc/column/int.go
index 0ca234e..0b1d9a7 100644
--- a/orc/column/int.go
+++ b/orc/column/int.go
@@ -181,16 +181,13 @@ type IntV2Reader struct {
 }
 
 func (r *IntV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
-	if err != nil {
-		return err
-	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
+	if r.schema.Encoding == pb.ColumnEncoding_DIRECT {
+		err := errors.New("int reader encoding direct not impl")
 		return err
 	}
 
-	if r.schema.Encoding == pb.ColumnEncoding_DIRECT {
-		err := errors.New("int reader encoding direct not impl")
+	f, err := r.open(startOffset)
+	if err != nil {
 		return err
 	}
 
@@ -202,13 +199,14 @@ func (r *IntV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 		r.data = stream.NewIntRLV2Reader(r.opts, info, startOffset, true, f)
 		return nil
 	}
+	f.Close()
 	return errors.New("stream unknown")
 }
 
 func (r *IntV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
diff --git a/orc/column/list.go b/orc/column/list.go
index 7f2563f..c4a3c3a 100644
--- a/orc/column/list.go
+++ b/orc/column/list.go
@@ -24,13 +24,10 @@ type ListV2Reader struct {
 }
 
 func (r *ListV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.open(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	if info.GetKind() == pb.Stream_PRESENT {
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
@@ -40,6 +37,7 @@ func (r *ListV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 		r.length = stream.NewIntRLV2Reader(r.opts, info, startOffset, false, f)
 		return nil
 	}
+	f.Close()
 	return errors.New("struct column no stream other than present")
 }
 
@@ -49,9 +47,10 @@ func (r *ListV2Reader) SetChild(child Reader) {
 
 func (r *ListV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
+	var elements int
 
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
@@ -64,25 +63,20 @@ func (r *ListV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if err != nil {
 				return err
 			}
+			if v > uint64(MaxElements-elements) {
+				return errors.Errorf("list of column %d too long", r.schema.Id)
+			}
+			elements += int(v)
 			vec.Vector[i].V = v
 		}
 
-		// prepare vector for child
-		vec.Children[0].Vector = vec.Children[0].Vector[:0]
-		if vec.Vector[i].Null {
-			vec.Children[0].Vector = append(vec.Children[0].Vector, api.Value{Null: true})
-		} else {
-			l := vec.Vector[i].V.(uint64)
-			for j := 0; j < int(l); j++ {
-				vec.Children[0].Vector = append(vec.Children[0].Vector, api.Value{})
-			}
-		}
+	}
 
-		if err := r.child.NextBatch(vec.Children[0]); err != nil {
-			return err
-		}
+	// prepare vector for child, elements of all rows one after another
+	if err := PrepareVector(r.child, vec.Children[0], elements); err != nil {
+		return err
 	}
-	return nil
+	return r.child.NextBatch(vec.Children[0])
 }
 
 func (r *ListV2Reader) Skip(rows uint64) error {
@@ -184,6 +178,9 @@ func (r *ListV2Reader) Close() {
 		r.present.Close()
 	}
 	r.length.Close()
+	if r.child != nil {
+		r.child.Close()
+	}
 }
 
 func NewListV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
diff --git a/orc/column/map.go b/orc/column/map.go
index 9642340..bb34084 100644
--- a/orc/column/map.go
+++ b/orc/column/map.go
@@ -7,7 +7,6 @@ import (
 	"github.com/patrickhuang888/goorc/orc/stream"
 	"github.com/patrickhuang888/goorc/pb/pb"
 	"github.com/pkg/errors"
-	"io"
 )
 
 func NewMapV2Reader(schema *api.TypeDescription, opts *config.ReaderOptions, f orcio.File) Reader {
@@ -33,18 +32,12 @@ func (r *MapV2Reader) SetValue(value Reader) {
 }
 
 func (r *MapV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.open(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	if info.GetKind() == pb.Stream_PRESENT {
-		if !r.schema.HasNulls {
-			return errors.New("schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 		return nil
 	}
@@ -52,14 +45,16 @@ func (r *MapV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 		r.length = stream.NewIntRLV2Reader(r.opts, info, startOffset, false, f)
 		return nil
 	}
+	f.Close()
 	return errors.New("struct column no stream other than present")
 }
 
 func (r *MapV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
+	var elements int
 
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
@@ -72,28 +67,27 @@ func (r *MapV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if err != nil {
 				return err
 			}
+			if v > uint64(MaxElements-elements) {
+				return errors.Errorf("map of column %d too long", r.schema.Id)
+			}
+			elements += int(v)
 			vec.Vector[i].V = int(v)
 		}
+	}
 
-		// prepare key/value vector
-		vec.Children[0].Vector = vec.Children[0].Vector[:0]
-		vec.Children[1].Vector = vec.Children[1].Vector[:0]
-		if vec.Vector[i].Null {
-			vec.Children[0].Vector = append(vec.Children[0].Vector, api.Value{Null: true})
-			vec.Children[1].Vector = append(vec.Children[1].Vector, api.Value{Null: true})
-		} else {
-			for j := 0; j < vec.Vector[i].V.(int); j++ {
-				vec.Children[0].Vector = append(vec.Children[0].Vector, api.Value{})
-				vec.Children[1].Vector = append(vec.Children[1].Vector, api.Value{})
-			}
-		}
+	// prepare key/value vector, entries of all rows one after another
+	if err = PrepareVector(r.key, vec.Children[0], elements); err != nil {
+		return err
+	}
+	if err = PrepareVector(r.value, vec.Children[1], elements); err != nil {
+		return err
+	}
 
-		if err = r.key.NextBatch(vec.Children[0]); err != nil {
-			return err
-		}
-		if err = r.value.NextBatch(vec.Children[1]); err != nil {
-			return err
-		}
+	if err = r.key.NextBatch(vec.Children[0]); err != nil {
+		return err
+	}
+	if err = r.value.NextBatch(vec.Children[1]); err != nil {
+		return err
 	}
 	return nil
 }
@@ -114,13 +108,11 @@ func (r *MapV2Reader) Skip(rows uint64) error {
 			if err != nil {
 				return err
 			}
-			for j := 0; j < int(l); j++ {
-				if err := r.key.Skip(l); err != nil {
-					return err
-				}
-				if err := r.value.Skip(l); err != nil {
-					return err
-				}
+			if err := r.key.Skip(l); err != nil {
+				return err
+			}
+			if err := r.value.Skip(l); err != nil {
+				return err
 			}
 		}
 	}
@@ -209,6 +201,11 @@ func (r *MapV2Reader) Close() {
 	if r.present != nil {
 		r.present.Close()
 	}
-	r.key.Close()
-	r.value.Close()
+	r.length.Close()
+	if r.key != nil {
+		r.key.Close()
+	}
+	if r.value != nil {
+		r.value.Close()
+	}
 }
diff --git a/orc/column/package.go b/orc/column/package.go
index 9c7244a..6f073af 100644
--- a/orc/column/package.go
+++ b/orc/column/package.go
@@ -59,6 +59,9 @@ type Writer interface {
 	// data will be updated after flush
 	GetStats() *pb.ColumnStatistics
 
+	// SkipRow for a row which parent is null
+	SkipRow()
+
 	// Reset for column writer reset after stripe write out
 	Reset()
 
@@ -66,6 +69,27 @@ type Writer interface {
 	Size() int
 }
 
+// RequiredStreams get kinds of streams other than present, which are needed to read a column
+func RequiredStreams(schema *api.TypeDescription) []pb.Stream_Kind {
+	switch schema.Kind {
+	case pb.Type_STRING, pb.Type_CHAR, pb.Type_VARCHAR:
+		if schema.Encoding == pb.ColumnEncoding_DICTIONARY_V2 {
+			return []pb.Stream_Kind{pb.Stream_DATA, pb.Stream_DICTIONARY_DATA, pb.Stream_LENGTH}
+		}
+		return []pb.Stream_Kind{pb.Stream_DATA, pb.Stream_LENGTH}
+	case pb.Type_BINARY:
+		return []pb.Stream_Kind{pb.Stream_DATA, pb.Stream_LENGTH}
+	case pb.Type_DECIMAL, pb.Type_TIMESTAMP:
+		return []pb.Stream_Kind{pb.Stream_DATA, pb.Stream_SECONDARY}
+	case pb.Type_LIST, pb.Type_MAP:
+		return []pb.Stream_Kind{pb.Stream_LENGTH}
+	case pb.Type_STRUCT:
+		return nil
+	default:
+		return []pb.Stream_Kind{pb.Stream_DATA}
+	}
+}
+
 func NewReader(schema *api.TypeDescription, opts *config.ReaderOptions, in orcio.File) (Reader, error) {
 	switch schema.Kind {
 	case pb.Type_SHORT:
@@ -95,6 +119,10 @@ func NewReader(schema *api.TypeDescription, opts *config.ReaderOptions, in orcio
 		}
 		return NewFloatReader(schema, opts, in, true), nil
 
+	case pb.Type_CHAR:
+		fallthrough
+	case pb.Type_VARCHAR:
+		fallthrough
 	case pb.Type_STRING:
 		if schema.Encoding == pb.ColumnEncoding_DIRECT_V2 {
 			return NewStringDirectV2Reader(opts, schema, in), nil
diff --git a/orc/column/reader.go b/orc/column/reader.go
index d8f13b1..080747e 100644
--- a/orc/column/reader.go
+++ b/orc/column/reader.go
@@ -30,6 +30,76 @@ func (r *reader) String() string {
 	return sb.String()
 }
 
+// MaxElements is the limit of list elements or map entries in a batch
+const MaxElements = 1 << 24
+
+// PrepareVector set vec, which should have the same tree as r, to read next rows of size, nulls of last batch are cleared
+func PrepareVector(r Reader, vec *api.ColumnVector, size int) error {
+	if vec == nil {
+		return errors.New("batch has no vector for a column")
+	}
+
+	var children []Reader
+	switch c := r.(type) {
+	case *StructReader:
+		children = c.children
+	case *ListV2Reader:
+		children = []Reader{c.child}
+	case *MapV2Reader:
+		children = []Reader{c.key, c.value}
+	}
+	if len(vec.Children) != len(children) {
+		return errors.Errorf("vector of column %d has %d children, should have %d", vec.Id, len(vec.Children), len(children))
+	}
+
+	if s, ok := r.(*StructReader); ok {
+		if vec.Vector != nil || s.present != nil {
+			resize(vec, size)
+		}
+		for i, c := range children {
+			if err := PrepareVector(c, vec.Children[i], size); err != nil {
+				return err
+			}
+		}
+		return nil
+	}
+
+	resize(vec, size)
+	for i, c := range children { // will be sized when lengths have been read
+		if err := PrepareVector(c, vec.Children[i], 0); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+func resize(vec *api.ColumnVector, size int) {
+	if vec.Vector == nil || cap(vec.Vector) < size {
+		c := vec.Cap()
+		if c < size {
+			c = size
+		}
+		vec.Vector = make([]api.Value, size, c)
+	}
+	vec.Vector = vec.Vector[:size]
+	for i := range vec.Vector {
+		vec.Vector[i].Null = false
+	}
+}
+
+// open file of a stream, which starts at startOffset
+func (r *reader) open(startOffset uint64) (orcio.File, error) {
+	f, err := r.f.Clone()
+	if err != nil {
+		return nil, err
+	}
+	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
+		f.Close()
+		return nil, err
+	}
+	return f, nil
+}
+
 func (r *reader) InitIndex(startOffset uint64, length uint64) error {
 	if _, err := r.f.Seek(int64(startOffset), io.SeekStart); err != nil {
 		return errors.WithStack(err)
diff --git a/orc/column/string.go b/orc/column/string.go
index 5b5aa18..09e6fbd 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -192,13 +192,10 @@ type StringDirectV2Reader struct {
 }
 
 func (r *StringDirectV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.open(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
@@ -208,6 +205,7 @@ func (r *StringDirectV2Reader) InitStream(info *pb.Stream, startOffset uint64) e
 	case pb.Stream_LENGTH:
 		r.length = stream.NewIntRLV2Reader(r.opts, info, startOffset, false, f)
 	default:
+		f.Close()
 		return errors.New("stream kind not unknown")
 	}
 	return nil
@@ -216,7 +214,7 @@ func (r *StringDirectV2Reader) InitStream(info *pb.Stream, startOffset uint64) e
 func (r *StringDirectV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
@@ -338,7 +336,7 @@ func (r *StringDirectV2Reader) SeekStride(stride int) error {
 }
 
 func (r *StringDirectV2Reader) Close() {
-	if r.schema.HasNulls {
+	if r.present != nil {
 		r.present.Close()
 	}
 	r.data.Close()
@@ -361,19 +359,13 @@ type StringDictionaryV2Reader struct {
 }
 
 func (r *StringDictionaryV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.open(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			return errors.New("schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 	case pb.Stream_DATA:
 		r.data = stream.NewIntRLV2Reader(r.opts, info, startOffset, false, f)
@@ -382,6 +374,7 @@ func (r *StringDictionaryV2Reader) InitStream(info *pb.Stream, startOffset uint6
 	case pb.Stream_LENGTH:
 		r.length = stream.NewIntRLV2Reader(r.opts, info, startOffset, false, f)
 	default:
+		f.Close()
 		return errors.New("stream kind not unknown")
 	}
 	return nil
@@ -406,7 +399,7 @@ func (r *StringDictionaryV2Reader) NextBatch(vec *api.ColumnVector) error {
 	}
 
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
@@ -418,6 +411,9 @@ func (r *StringDictionaryV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if data, err = r.data.NextUInt64(); err != nil {
 				return err
 			}
+			if data >= uint64(len(r.dictStrings)) {
+				return errors.Errorf("dictionary index %d larger than dictionary of %d", data, len(r.dictStrings))
+			}
 			vec.Vector[i].V = r.dictStrings[data]
 		}
 	}
@@ -520,7 +516,7 @@ func (r *StringDictionaryV2Reader) Close() {
 func NewStringDictionaryV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
 	newStats := func() *pb.ColumnStatistics {
 		stats := &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
-			Maximum: new(string), Minimum: new(string), Sum: new(int64), LowerBound: new(string), UpperBound: new(string)},
+			Maximum: new(string), Minimum: new(string), Sum: new(int64)},
 			NumberOfValues: new(uint64), HasNull: new(bool), BytesOnDisk: new(uint64)}
 		*stats.HasNull = schema.HasNulls
 		return stats
@@ -540,8 +536,15 @@ func NewStringDictionaryV2Writer(schema *api.TypeDescription, opts *config.Write
 	data := stream.NewIntRLV2Writer(schema.Id, pb.Stream_DATA, opts, false)
 	dict := stream.NewStringContentsWriter(schema.Id, pb.Stream_DICTIONARY_DATA, opts)
 	length := stream.NewIntRLV2Writer(schema.Id, pb.Stream_LENGTH, opts, false)
-	base.indexed(newStats, data)
-	return &stringDictionaryV2Writer{writer: base, dataStream: data, dictStream: dict, lengthStream: length, data: map[string][]int{}}
+	w := &stringDictionaryV2Writer{writer: base, dataStream: data, dictStream: dict, lengthStream: length, data: map[string][]int{}}
+	w.groups = []int{0}
+	base.indexed(newStats)
+	presentPositions := base.positions
+	base.positions = func() []uint64 {
+		w.groups = append(w.groups, w.count)
+		return presentPositions()
+	}
+	return w
 }
 
 type stringDictionaryV2Writer struct {
@@ -552,6 +555,10 @@ type stringDictionaryV2Writer struct {
 
 	count int
 	data  map[string][]int
+	// size of data buffered
+	size int
+	// count of values before every row group
+	groups []int
 }
 
 func (w *stringDictionaryV2Writer) Write(value api.Value) error {
@@ -566,76 +573,21 @@ func (w *stringDictionaryV2Writer) Write(value api.Value) error {
 		if !ok {
 			return errors.New("string column writing, value should be string")
 		}
-		// string encoded in utf-8
-		data := []byte(s)
-		l := len(data)
-
 		vs := w.data[s]
-		w.count++
 		vs = append(vs, w.count)
 		w.data[s] = vs
-
-		*w.stats.NumberOfValues++
-		*w.stats.StringStatistics.Sum += int64(l)
-		if l >= MaxByteLength {
-			if s < *w.stats.StringStatistics.LowerBound {
-				*w.stats.StringStatistics.LowerBound = s
-			}
-			if s > *w.stats.StringStatistics.UpperBound {
-				*w.stats.StringStatistics.UpperBound = s
-			}
-		} else {
-			if s < *w.stats.StringStatistics.Minimum {
-				*w.stats.StringStatistics.Minimum = s
-			}
-			if s > *w.stats.StringStatistics.Maximum {
-				*w.stats.StringStatistics.Maximum = s
-			}
+		w.count++
+		w.size += 8
+		if len(vs) == 1 {
+			w.size += len(s)
 		}
-	}
 
-	// todo: index writing
-	/*if w.opts.WriteIndex {
-		w.indexInRows++
-		if w.indexInRows >= w.opts.IndexStride {
-			var pp []uint64
-			if w.schema.HasNulls {
-				pp = append(pp, w.present.GetPosition()...)
-			}
-			pp = append(pp, w.dataStream.GetPosition()...)
-			pp = append(pp, w.lengthStream.GetPosition()...)
-			w.index.Entry = append(w.index.Entry, &pb.RowIndexEntry{Statistics: w.indexStats, Positions: pp})
-			// new stats
-			w.indexStats = &pb.ColumnStatistics{StringStatistics: &pb.StringStatistics{
-				Maximum: new(string), Minimum: new(string), Sum: new(int64), LowerBound: new(string), UpperBound: new(string)},
-				NumberOfValues: new(uint64), HasNull: new(bool)}
-			if w.schema.HasNulls {
-				*w.indexStats.HasNull = true
-			}
-			w.indexInRows = 0
+		updateStringStats(w.stats, s)
+		if w.opts.WriteIndex {
+			updateStringStats(w.indexStats, s)
 		}
+	}
 
-		if !value.Null {
-			*w.indexStats.NumberOfValues++
-			*w.indexStats.StringStatistics.Sum += int64(l)
-			s := value.V.(string)
-			if l >= MaxByteLength {
-				if s < *w.indexStats.StringStatistics.LowerBound {
-					*w.indexStats.StringStatistics.LowerBound = s
-				}
-				if s > *w.indexStats.StringStatistics.UpperBound {
-					*w.indexStats.StringStatistics.UpperBound = s
-				}
-			} else {
-				if s < *w.indexStats.StringStatistics.Minimum {
-					*w.indexStats.StringStatistics.Minimum = s
-				}
-				if s > *w.indexStats.StringStatistics.Maximum {
-					*w.indexStats.StringStatistics.Maximum = s
-				}
-			}
-		}
-	}*/
 	w.endRow()
 	return nil
 }
@@ -656,16 +608,26 @@ func (w *stringDictionaryV2Writer) Flush() error {
 			data[position] = dictIndex
 		}
 	}
-	for _, v := range data {
-		if err := w.dataStream.Write(v); err != nil {
-			return err
+	// positions of values are known until now
+	group := 0
+	for i := 0; i <= len(data); i++ {
+		for ; group < len(w.groups) && w.groups[group] == i; group++ {
+			if group < len(w.index.Entry) {
+				entry := w.index.Entry[group]
+				entry.Positions = append(entry.Positions, w.dataStream.GetPosition()...)
+			}
+		}
+		if i < len(data) {
+			if err := w.dataStream.Write(uint64(data[i])); err != nil {
+				return err
+			}
 		}
 	}
 	for _, v := range dict {
-		if err := w.dictStream.Write(v); err != nil {
+		bs := []byte(v)
+		if err := w.dictStream.Write(bs); err != nil {
 			return err
 		}
-		bs := []byte(v)
 		if err := w.lengthStream.Write(uint64(len(bs))); err != nil {
 			return err
 		}
@@ -697,6 +659,11 @@ func (w *stringDictionaryV2Writer) Flush() error {
 	return nil
 }
 
+// DictionarySize is number of entries of dictionary of current stripe
+func (w *stringDictionaryV2Writer) DictionarySize() uint32 {
+	return uint32(len(w.data))
+}
+
 func (w *stringDictionaryV2Writer) WriteOut(out io.Writer) (n int64, err error) {
 	var pn, dn, dcn, ln int64
 	if w.schema.HasNulls {
@@ -723,7 +690,7 @@ func (w stringDictionaryV2Writer) GetStreamInfos() []*pb.Stream {
 	return []*pb.Stream{w.dataStream.Info(), w.dictStream.Info(), w.lengthStream.Info()}
 }
 
-func (w stringDictionaryV2Writer) Reset() {
+func (w *stringDictionaryV2Writer) Reset() {
 	w.reset()
 	w.dataStream.Reset()
 	w.dictStream.Reset()
@@ -731,13 +698,17 @@ func (w stringDictionaryV2Writer) Reset() {
 
 	w.data = map[string][]int{}
 	w.count = 0
+	w.size = 0
+	w.groups = []int{0}
 }
 
 func (w stringDictionaryV2Writer) Size() int {
-	// fixme: size calculation
-
+	size := w.size
+	if w.flushed { // it's in streams
+		size = w.dataStream.Size() + w.dictStream.Size() + w.lengthStream.Size()
+	}
 	if w.schema.HasNulls {
-		return w.present.Size() + w.dataStream.Size() + w.dictStream.Size() + w.lengthStream.Size()
+		return w.present.Size() + size
 	}
-	return w.dataStream.Size() + w.dictStream.Size() + w.lengthStream.Size()
+	return size
 }
diff --git a/orc/column/struct.go b/orc/column/struct.go
index f7a6f55..334ec74 100644
--- a/orc/column/struct.go
+++ b/orc/column/struct.go
@@ -29,21 +29,16 @@ func (r *StructReader) AddChild(child Reader) {
 }
 
 func (r *StructReader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
+	f, err := r.open(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	if info.GetKind() == pb.Stream_PRESENT {
-		if !r.schema.HasNulls {
-			return errors.New("should no present")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 		return nil
 	}
+	f.Close()
 	return errors.New("struct column no stream other than present")
 }
 
@@ -95,6 +90,15 @@ func (r *StructReader) SeekStride(stride int) error {
 }
 
 func (r *StructReader) Skip(rows uint64) error {
+	if r.present == nil {
+		for _, c := range r.children {
+			if err := c.Skip(rows); err != nil {
+				return err
+			}
+		}
+		return nil
+	}
+
 	var err error
 	p := true
 
@@ -119,14 +123,17 @@ func (r *StructReader) Skip(rows uint64) error {
 func (r *StructReader) NextBatch(vec *api.ColumnVector) error {
 	if r.present != nil {
 		for i := 0; i < len(vec.Vector); i++ {
+			if vec.Vector[i].Null { // parent is null
+				continue
+			}
 			p, err := r.present.Next()
 			if err != nil {
 				return err
 			}
 			vec.Vector[i].Null = !p
 		}
-		fillNulls(vec)
 	}
+	fillNulls(vec.Vector, vec.Children)
 
 	for i, c := range r.children {
 		if err := c.NextBatch(vec.Children[i]); err != nil {
@@ -136,12 +143,18 @@ func (r *StructReader) NextBatch(vec *api.ColumnVector) error {
 	return nil
 }
 
-func fillNulls(vec *api.ColumnVector) {
-	for _, c := range vec.Children {
-		for i, v := range vec.Vector {
-			c.Vector[i].Null = v.Null
+// fillNulls children of null are null
+func fillNulls(parents []api.Value, children []*api.ColumnVector) {
+	for _, c := range children {
+		if c.Vector == nil { // struct without nulls of itself
+			fillNulls(parents, c.Children)
+			continue
+		}
+		for i, v := range parents {
+			if v.Null {
+				c.Vector[i].Null = true
+			}
 		}
-		fillNulls(c)
 	}
 }
 
@@ -157,8 +170,7 @@ func (r *StructReader) Close() {
 
 func newStructWriter(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
 	newStats := func() *pb.ColumnStatistics {
-		stats := &pb.ColumnStatistics{BucketStatistics: &pb.BucketStatistics{Count: make([]uint64, 1)},
-			NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool)}
+		stats := &pb.ColumnStatistics{NumberOfValues: new(uint64), BytesOnDisk: new(uint64), HasNull: new(bool)}
 		*stats.HasNull = schema.HasNulls
 		return stats
 	}
@@ -183,24 +195,20 @@ type structWriter struct {
 }
 
 func (w *structWriter) Write(value api.Value) error {
-	if !w.schema.HasNulls {
-		return nil
-	}
-
-	if err := w.present.Write(!value.Null); err != nil {
-		return err
+	if w.schema.HasNulls {
+		if err := w.present.Write(!value.Null); err != nil {
+			return err
+		}
 	}
 	if !value.Null {
-		(*w.stats.BucketStatistics).Count[0]++
+		*w.stats.NumberOfValues++
 	}
-	*w.stats.NumberOfValues++
 
 	if w.opts.WriteIndex {
 		// no bytes on disk index stats
 		if !value.Null {
-			(*w.indexStats.BucketStatistics).Count[0]++
+			*w.indexStats.NumberOfValues++
 		}
-		*w.indexStats.NumberOfValues++
 	}
 	w.endRow()
 	return nil
diff --git a/orc/column/time.go b/orc/column/time.go
index 67e72f0..2ec630e 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -143,22 +143,16 @@ type DateV2Reader struct {
 }
 
 func (r *DateV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	f, err := r.f.Clone()
-	if err != nil {
-		return err
-	}
-	if _, err := f.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
-
 	if r.schema.Encoding != pb.ColumnEncoding_DIRECT_V2 {
 		return errors.New("encoding error")
 	}
 
+	f, err := r.open(startOffset)
+	if err != nil {
+		return err
+	}
+
 	if info.GetKind() == pb.Stream_PRESENT {
-		if !r.schema.HasNulls {
-			return errors.New("schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, f)
 		return nil
 	}
@@ -166,13 +160,14 @@ func (r *DateV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
 		r.data = stream.NewDateV2Reader(r.opts, info, startOffset, f)
 		return err
 	}
+	f.Close()
 	return errors.New("stream kind unknown")
 }
 
 func (r *DateV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
@@ -211,6 +206,15 @@ func (r *DateV2Reader) Skip(rows uint64) error {
 }
 
 func (r *DateV2Reader) SeekStride(stride int) error {
+	if stride == 0 {
+		if r.present != nil {
+			if err := r.present.Seek(0, 0, 0, 0); err != nil {
+				return err
+			}
+		}
+		return r.data.Seek(0, 0, 0)
+	}
+
 	pos, err := r.getStridePositions(stride, r.present != nil, 1, 1)
 	if err != nil {
 		return err
@@ -237,7 +241,7 @@ func (r *DateV2Reader) SeekStride(stride int) error {
 
 	var dataChunk, dataChunkOffset, dataOffset uint64
 	if r.opts.CompressionKind == pb.CompressionKind_NONE {
-		if r.schema.HasNulls {
+		if r.present != nil {
 			dataChunkOffset = pos[3]
 			dataOffset = pos[4]
 		} else {
@@ -245,7 +249,7 @@ func (r *DateV2Reader) SeekStride(stride int) error {
 			dataOffset = pos[1]
 		}
 	} else {
-		if r.schema.HasNulls {
+		if r.present != nil {
 			dataChunk = pos[4]
 			dataChunkOffset = pos[5]
 			dataOffset = pos[6]
@@ -263,7 +267,9 @@ func (r *DateV2Reader) Close() {
 	if r.present != nil {
 		r.present.Close()
 	}
-	r.data.Close()
+	if r.data != nil {
+		r.data.Close()
+	}
 }
 
 func NewTimestampV2Writer(schema *api.TypeDescription, opts *config.WriterOptions) Writer {
@@ -427,25 +433,20 @@ type TimestampV2Reader struct {
 }
 
 func (r *TimestampV2Reader) InitStream(info *pb.Stream, startOffset uint64) error {
-	ic, err := r.f.Clone()
+	ic, err := r.open(startOffset)
 	if err != nil {
 		return err
 	}
-	if _, err = ic.Seek(int64(startOffset), io.SeekStart); err != nil {
-		return err
-	}
 
 	switch info.GetKind() {
 	case pb.Stream_PRESENT:
-		if !r.schema.HasNulls {
-			return errors.New("schema has no nulls")
-		}
 		r.present = stream.NewBoolReader(r.opts, info, startOffset, ic)
 	case pb.Stream_DATA:
 		r.data = stream.NewIntRLV2Reader(r.opts, info, startOffset, true, ic)
 	case pb.Stream_SECONDARY:
 		r.secondary = stream.NewIntRLV2Reader(r.opts, info, startOffset, false, ic)
 	default:
+		ic.Close()
 		return errors.New("stream kind error")
 	}
 	return nil
@@ -454,7 +455,7 @@ func (r *TimestampV2Reader) InitStream(info *pb.Stream, startOffset uint64) erro
 func (r *TimestampV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 	for i := 0; i < len(vec.Vector); i++ {
-		if r.present != nil {
+		if r.present != nil && !vec.Vector[i].Null {
 			var p bool
 			if p, err = r.present.Next(); err != nil {
 				return err
@@ -471,9 +472,7 @@ func (r *TimestampV2Reader) NextBatch(vec *api.ColumnVector) error {
 			if ns, err = r.secondary.NextUInt64(); err != nil {
 				return err
 			}
-			t:= vec.Vector[i].V.(api.Timestamp)
-			t.Seconds= s
-			t.Nanos= api.DecodingTimestampNanos(ns)
+			vec.Vector[i].V = api.Timestamp{Loc: r.loc, Seconds: s, Nanos: api.DecodingTimestampNanos(ns)}
 		}
 	}
 	return nil
diff --git a/orc/column/writer.go b/orc/column/writer.go
index a5b7456..f00bd1f 100644
--- a/orc/column/writer.go
+++ b/orc/column/writer.go
@@ -59,6 +59,11 @@ func (w *writer) endRow() {
 	}
 }
 
+// SkipRow a row which is not in the column, because its parent is null
+func (w *writer) SkipRow() {
+	w.endRow()
+}
+
 // endRowGroup add an entry for rows since last entry, entry's positions are where the first of them starts
 func (w *writer) endRowGroup() {
 	pp := w.positions()
diff --git a/orc/stream/bool.go b/orc/stream/bool.go
index aab1535..f369cbc 100644
--- a/orc/stream/bool.go
+++ b/orc/stream/bool.go
@@ -51,5 +51,7 @@ func (r *BoolReader) Finished() bool {
 }
 
 func (r *BoolReader) Close() {
-	r.reader.Close()
+	if r != nil {
+		r.reader.Close()
+	}
 }
diff --git a/orc/stream/byte.go b/orc/stream/byte.go
index b164bab..0685891 100644
--- a/orc/stream/byte.go
+++ b/orc/stream/byte.go
@@ -53,5 +53,7 @@ func (r *ByteReader) Finished() bool {
 }
 
 func (r *ByteReader) Close() {
-	r.stream.Close()
+	if r != nil {
+		r.stream.Close()
+	}
 }
diff --git a/orc/stream/float.go b/orc/stream/float.go
index 9b539b5..6b1d55d 100644
--- a/orc/stream/float.go
+++ b/orc/stream/float.go
@@ -52,7 +52,7 @@ func (r *FloatReader) Seek(chunk uint64, chunkOffset uint64) error {
 }
 
 func (r *FloatReader) Close() {
-	if r.stream!=nil {
+	if r != nil && r.stream != nil {
 		r.stream.Close()
 	}
 }
diff --git a/orc/stream/int.go b/orc/stream/int.go
index bda74c3..759a109 100644
--- a/orc/stream/int.go
+++ b/orc/stream/int.go
@@ -111,7 +111,9 @@ func (r *IntRLV2Reader) Seek(chunkOffset, offset, pos uint64) error {
 }
 
 func (r *IntRLV2Reader) Close() {
-	r.stream.Close()
+	if r != nil {
+		r.stream.Close()
+	}
 }
 
 type Varint64Reader struct {
@@ -140,5 +142,7 @@ func (r *Varint64Reader) Seek(offset, uncompressedOffset, pos uint64) error {
 }
 
 func (r *Varint64Reader) Close() {
-	r.stream.Close()
+	if r != nil {
+		r.stream.Close()
+	}
 }
diff --git a/orc/stream/string.go b/orc/stream/string.go
index 8bbbc34..cc106fa 100644
--- a/orc/stream/string.go
+++ b/orc/stream/string.go
@@ -55,5 +55,7 @@ func (r *StringContentsReader) Seek(chunk uint64, chunkOffset uint64) error {
 }
 
 func (r *StringContentsReader) Close() {
-	r.stream.Close()
+	if r != nil {
+		r.stream.Close()
+	}
 }
diff --git a/orc/stream/time.go b/orc/stream/time.go
index 7dbb189..8214b85 100644
--- a/orc/stream/time.go
+++ b/orc/stream/time.go
@@ -24,7 +24,9 @@ func (r dateV2Reader) Finished() bool {
 }
 
 func (r *dateV2Reader) Close() {
-	r.stream.Close()
+	if r != nil {
+		r.stream.Close()
+	}
 }
 
 func (r *dateV2Reader) Next() (date api.Date, err error) {
diff --git a/orc/stripe.go b/orc/stripe.go
index f150dd1..2f175a1 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -40,7 +40,7 @@ type stripeWriter struct {
 func (stripe *stripeWriter) write(vec *api.ColumnVector) error {
 	count := uint64(0)
 	for i := 0; i < vec.Len(); i++ {
-		if err := stripe.writeValue(i, vec); err != nil {
+		if err := stripe.writeValue(i, vec, false); err != nil {
 			return err
 		}
 		count++
@@ -61,15 +61,22 @@ func (stripe *stripeWriter) write(vec *api.ColumnVector) error {
 	return nil
 }
 
-func (stripe *stripeWriter) writeValue(index int, vec *api.ColumnVector) error {
-	if vec.Vector != nil { // maybe no present struct vector
-		if err := stripe.columnWriters[vec.Id].Write(vec.Vector[index]); err != nil {
+// parentNull children of a null value are not written
+func (stripe *stripeWriter) writeValue(index int, vec *api.ColumnVector, parentNull bool) error {
+	var value api.Value
+	if len(vec.Vector) != 0 { // maybe no present struct vector
+		value = vec.Vector[index]
+	}
+	if parentNull {
+		stripe.columnWriters[vec.Id].SkipRow()
+	} else {
+		if err := stripe.columnWriters[vec.Id].Write(value); err != nil {
 			return err
 		}
 	}
 
 	for _, c := range vec.Children {
-		if err := stripe.writeValue(index, c); err != nil {
+		if err := stripe.writeValue(index, c, parentNull || value.Null); err != nil {
 			return err
 		}
 	}
@@ -137,8 +144,13 @@ func (stripe *stripeWriter) writeFooter() error {
 		footer.Streams = append(footer.Streams, c.GetStreamInfos()...)
 	}
 
-	for _, schema := range stripe.schemas {
-		footer.Columns = append(footer.Columns, &pb.ColumnEncoding{Kind: &schema.Encoding})
+	for i, schema := range stripe.schemas {
+		encoding := &pb.ColumnEncoding{Kind: &schema.Encoding}
+		if d, ok := stripe.columnWriters[i].(interface{ DictionarySize() uint32 }); ok {
+			size := d.DictionarySize()
+			encoding.DictionarySize = &size
+		}
+		footer.Columns = append(footer.Columns, encoding)
 	}
 
 	footerBuf, err := proto.Marshal(footer)
@@ -214,6 +226,16 @@ type stripeReader struct {
 
 	numberOfRows uint64
 	cursor       uint64
+
+	// rows can be found by row index
+	indexed bool
+	// reading or seeking failed, position is unknown
+	err error
+}
+
+type streamId struct {
+	column uint32
+	kind   pb.Stream_Kind
 }
 
 func newStripeReader(f orcio.File, schemas []*api.TypeDescription, ropts *config.ReaderOptions, bopt *api.BatchOption,
@@ -224,6 +246,7 @@ func newStripeReader(f orcio.File, schemas []*api.TypeDescription, ropts *config
 		return nil, err
 	}
 	if err := reader.init(info, footer); err != nil {
+		reader.Close()
 		return nil, err
 	}
 	return reader, nil
@@ -256,14 +279,30 @@ func (stripe *stripeReader) readFooter(info *pb.StripeInformation) (*pb.StripeFo
 // stripe {index{},column{[present],data,[length]},footer}
 func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFooter) error {
 	// make sure len(columns)==len(all schemas)
+	if len(footer.GetColumns()) < len(stripe.schemas) {
+		return errors.Errorf("stripe %d has %d columns, should have %d", stripe.index, len(footer.GetColumns()), len(stripe.schemas))
+	}
+
 	readers := make([]column.Reader, len(stripe.schemas))
-	for _, schema := range stripe.schemas {
-		if stripe.bopt.IsInclude(schema.Id) {
+	// kinds of streams every column needs
+	needs := make([]map[pb.Stream_Kind]bool, len(stripe.schemas))
+	for _, s := range stripe.schemas {
+		if stripe.bopt.IsInclude(s.Id) {
+			// schemas are shared, stripes may have different encodings
+			schema := &api.TypeDescription{}
+			*schema = *s
 			schema.Encoding = footer.GetColumns()[schema.Id].GetKind()
 			r, err := column.NewReader(schema, stripe.ropts, stripe.f)
 			if err != nil {
 				return err
 			}
+			if schema.Kind == pb.Type_TIMESTAMP && stripe.bopt.Loc != nil {
+				r = column.NewTimestampV2Reader(schema, stripe.ropts, stripe.f, stripe.bopt.Loc)
+			}
+			needs[schema.Id] = make(map[pb.Stream_Kind]bool)
+			for _, kind := range column.RequiredStreams(schema) {
+				needs[schema.Id][kind] = true
+			}
 			readers[schema.Id] = r
 			if stripe.columnReader==nil {
 				stripe.columnReader= r
@@ -271,16 +310,56 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 		}
 	}
 
+	// build tree
+	for _, schema := range stripe.schemas {
+		for i, c := range schema.Children {
+			if stripe.bopt.IsInclude(c.Id) { // todo: verify includes map's key and value
+				switch schema.Kind {
+				case pb.Type_STRUCT:
+					readers[schema.Id].(*column.StructReader).AddChild(readers[c.Id])
+				case pb.Type_LIST:
+					readers[schema.Id].(*column.ListV2Reader).SetChild(readers[c.Id])
+				case pb.Type_MAP:
+					if i == 0 {
+						readers[schema.Id].(*column.MapV2Reader).SetKey(readers[c.Id])
+					} else if i == 1 {
+						readers[schema.Id].(*column.MapV2Reader).SetValue(readers[c.Id])
+					} else {
+						return errors.New("map children > 2")
+					}
+				case pb.Type_UNION:
+					return errors.New("not impl")
+				default:
+					return errors.New("should have no child")
+				}
+			}
+		}
+	}
+
 	// streams has sequence
 	indexStart := info.GetOffset()
 	dataStart := indexStart + info.GetIndexLength()
+	indexEnd, dataEnd := dataStart, dataStart+info.GetDataLength()
+	opened := make(map[streamId]bool)
 	for _, streamInfo := range footer.GetStreams() {
 		id := streamInfo.GetColumn()
 		streamKind := streamInfo.GetKind()
 		length := streamInfo.GetLength()
 
-		if streamKind == pb.Stream_ROW_INDEX {
-			if readers[id] != nil {
+		if id >= uint32(len(readers)) {
+			return errors.Errorf("stripe %d has a stream of column %d, which does not exist", stripe.index, id)
+		}
+		isIndex := streamKind == pb.Stream_ROW_INDEX || streamKind == pb.Stream_BLOOM_FILTER || streamKind == pb.Stream_BLOOM_FILTER_UTF8
+		if (isIndex && length > indexEnd-indexStart) || (!isIndex && length > dataEnd-dataStart) {
+			return errors.Errorf("stripe %d, stream %s larger than stripe", stripe.index, streamInfo.String())
+		}
+		if readers[id] != nil && opened[streamId{id, streamKind}] {
+			return errors.Errorf("stripe %d has more than one stream %s", stripe.index, streamInfo.String())
+		}
+		opened[streamId{id, streamKind}] = true
+
+		if isIndex {
+			if readers[id] != nil && streamKind == pb.Stream_ROW_INDEX {
 				if err := readers[id].InitIndex(indexStart, length); err != nil {
 					return err
 				}
@@ -297,30 +376,23 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 		dataStart += length
 	}
 
-	// build tree
-	for _, schema := range stripe.schemas {
-		for i, c := range schema.Children {
-			if stripe.bopt.IsInclude(c.Id) { // todo: verify includes map's key and value
-				switch schema.Kind {
-				case pb.Type_STRUCT:
-					readers[schema.Id].(*column.StructReader).AddChild(readers[c.Id])
-				case pb.Type_LIST:
-					readers[schema.Id].(*column.ListV2Reader).SetChild(readers[c.Id])
-				case pb.Type_MAP:
-					if i == 0 {
-						readers[schema.Id].(*column.MapV2Reader).SetKey(readers[c.Id])
-					} else if i == 1 {
-						readers[schema.Id].(*column.MapV2Reader).SetValue(readers[c.Id])
-					} else {
-						return errors.New("map children > 2")
-					}
-				case pb.Type_UNION:
-					return errors.New("not impl")
-				default:
-					return errors.New("should have no child")
+	stripe.indexed = stripe.ropts.IndexStride > 0
+	for id, kinds := range needs {
+		column := uint32(id)
+		// stream without data may not be there
+		for kind := range kinds {
+			if !opened[streamId{column, kind}] {
+				kind := kind
+				if err := readers[id].InitStream(&pb.Stream{Kind: &kind, Column: &column, Length: new(uint64)}, dataStart); err != nil {
+					return err
 				}
 			}
 		}
+		if readers[id] != nil && !opened[streamId{column, pb.Stream_ROW_INDEX}] {
+			if len(kinds) != 0 || opened[streamId{column, pb.Stream_PRESENT}] {
+				stripe.indexed = false
+			}
+		}
 	}
 
 	return nil
@@ -328,76 +400,55 @@ func (stripe *stripeReader) init(info *pb.StripeInformation, footer *pb.StripeFo
 
 // a stripe is typically  ~200MB
 func (stripe *stripeReader) next(vec *api.ColumnVector) (end bool, err error) {
-	stripe.prepareVector(vec)
+	if stripe.err != nil {
+		return false, stripe.err
+	}
+	if err = stripe.prepareVector(vec); err != nil {
+		return
+	}
 
 	if err = stripe.columnReader.NextBatch(vec); err != nil {
+		stripe.err = err
 		return
 	}
 
 	stripe.cursor += uint64(vec.Len())
 	logger.Debugf("stripe %d reading cursor %d", stripe.index, stripe.cursor)
-	end = stripe.cursor+1 >= stripe.numberOfRows
+	end = stripe.cursor >= stripe.numberOfRows
 	return
 }
 
-func (stripe *stripeReader) prepareVector(vec *api.ColumnVector) {
+func (stripe *stripeReader) prepareVector(vec *api.ColumnVector) error {
 	page := vec.Cap() - vec.Len()
-	if int(stripe.numberOfRows-stripe.cursor) < page {
+	if stripe.numberOfRows-stripe.cursor < uint64(page) {
 		page = int(stripe.numberOfRows - stripe.cursor)
 	}
-	stripe.setVectorSize(page, vec)
-}
-
-func (stripe *stripeReader) setVectorSize(size int, vec *api.ColumnVector) {
-	switch vec.Kind {
-	case pb.Type_STRUCT:
-		if stripe.schemas[vec.Id].HasNulls {
-			vec.Vector = vec.Vector[:size]
-		}
-		for _, c := range vec.Children {
-			stripe.setVectorSize(size, c)
-		}
-
-	case pb.Type_LIST:
-		vec.Vector = vec.Vector[:size]
-		// list's children maybe struct
-		vec.Children[0].Vector = vec.Children[0].Vector[:0]
-
-	case pb.Type_MAP:
-		vec.Vector = vec.Vector[:size]
-		// toClarify: will map's children be struct or just primary?
-		vec.Children[0].Vector = vec.Children[0].Vector[:0]
-		vec.Children[1].Vector = vec.Children[1].Vector[:0]
-
-	case pb.Type_UNION:
-		panic("not impl")
-	default:
-		vec.Vector = vec.Vector[:size]
-	}
+	return column.PrepareVector(stripe.columnReader, vec, page)
 }
 
 // locate rows in this stripe
 func (stripe *stripeReader) Seek(rowNumber uint64) error {
-	var offset uint64
 	var stride uint64
+	offset := rowNumber
 
-	if rowNumber < uint64(stripe.ropts.IndexStride) {
-		offset = rowNumber
-	} else {
-		stride := rowNumber / uint64(stripe.ropts.IndexStride)
-		offset = rowNumber % (stride * uint64(stripe.ropts.IndexStride))
+	if stripe.indexed {
+		stride = rowNumber / uint64(stripe.ropts.IndexStride)
+		offset = rowNumber % uint64(stripe.ropts.IndexStride)
 	}
 
-	if err := stripe.columnReader.SeekStride(int(stride)); err != nil {
-		return err
+	if stripe.err = stripe.columnReader.SeekStride(int(stride)); stripe.err != nil {
+		return stripe.err
 	}
 
-	if err := stripe.columnReader.Skip(offset); err != nil {
-		return err
+	if stripe.err = stripe.columnReader.Skip(offset); stripe.err != nil {
+		return stripe.err
 	}
+	stripe.cursor = rowNumber
 	return nil
 }
 
 func (stripe *stripeReader) Close() {
-	stripe.columnReader.Close()
+	if stripe.columnReader != nil {
+		stripe.columnReader.Close()
+	}
 }
-- 
2.43.0


From 2ce161774a7d6e5e414eee6b57587368896ea19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:34 +0000
Subject: [PATCH 24/40] fix: reader checks the file tail, releases its file and
 returns every row once

---
 orc/reader.go | 183 ++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 161 insertions(+), 22 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index 6cf7507..16fe530 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -3,7 +3,6 @@ package orc
 import (
 	"bytes"
 	"compress/flate"
-	"fmt"
 	"io"
 	"os"
 
@@ -26,7 +25,12 @@ func NewOSFileReader(path string) (Reader, error) {
 	if err != nil {
 		return nil, err
 	}
-	return newReader(f)
+	r, err := newReader(f)
+	if err != nil {
+		f.Close()
+		return nil, err
+	}
+	return r, nil
 }
 
 type reader struct {
@@ -54,9 +58,20 @@ func newReader(f orcio.File) (r *reader, err error) {
 		return nil, errors.New("file footer error, number of rows 0")
 	}
 
+	if err = checkTypes(tail.Footer.Types); err != nil {
+		return nil, err
+	}
+	if err = checkStripes(tail); err != nil {
+		return nil, err
+	}
+
 	schemas := unmarshallSchema(tail.Footer.Types)
-	for i, stat := range tail.Footer.Statistics {
-		schemas[i].HasNulls = stat.GetHasNull()
+	for i, schema := range schemas {
+		// there may be nulls, if not known
+		schema.HasNulls = true
+		if i < len(tail.Footer.Statistics) && tail.Footer.Statistics[i].HasNull != nil {
+			schema.HasNulls = tail.Footer.Statistics[i].GetHasNull()
+		}
 	}
 
 	opts.CompressionKind = tail.Postscript.GetCompression()
@@ -69,26 +84,59 @@ func newReader(f orcio.File) (r *reader, err error) {
 	stats := tail.Footer.GetStatistics()
 	stripes := tail.Footer.GetStripes()
 
-	// todo: check opts chunksize !=0
+	if opts.ChunkSize == 0 {
+		return nil, errors.New("postscript error, compression block size 0")
+	}
 
 	r = &reader{f: f, opts: opts, schemas: schemas, numberOfRows: rows, stats: stats, stripes: stripes}
 	return
 }
 
 func (r *reader) CreateBatchReader(bopt *api.BatchOption) (BatchReader, error) {
-	if bopt.RowSize == 0 {
+	if bopt.RowSize <= 0 {
 		return nil, errors.New("Batch option RowSize == 0")
 	}
+	if err := checkIncludes(r.schemas, bopt); err != nil {
+		return nil, err
+	}
 
-	// todo: includes verification, make sure includes is a tree
-	br := &batchReader{f: r.f, numberOfRows: r.numberOfRows, ropts: r.opts, bopt: bopt, schemas: r.schemas}
+	// several batch readers may work at the same time
+	f, err := r.f.Clone()
+	if err != nil {
+		return nil, err
+	}
+	br := &batchReader{f: f, numberOfRows: r.numberOfRows, ropts: r.opts, bopt: bopt, schemas: r.schemas}
 
 	if err := br.initStripes(r.stripes); err != nil {
+		br.Close()
 		return nil, err
 	}
 	return br, nil
 }
 
+// checkIncludes make sure includes is a tree
+func checkIncludes(schemas []*api.TypeDescription, bopt *api.BatchOption) error {
+	for _, id := range bopt.Includes {
+		if id >= uint32(len(schemas)) {
+			return errors.Errorf("included column %d does not exist", id)
+		}
+	}
+	if !bopt.IsInclude(0) {
+		return errors.New("root column should be included")
+	}
+	for _, schema := range schemas {
+		for _, c := range schema.Children {
+			if bopt.IsInclude(c.Id) && !bopt.IsInclude(schema.Id) {
+				return errors.Errorf("column %d is included, but its parent %d is not", c.Id, schema.Id)
+			}
+			if schema.Kind != pb.Type_STRUCT && bopt.IsInclude(schema.Id) && !bopt.IsInclude(c.Id) {
+				return errors.Errorf("column %d is included, but its child %d is not", schema.Id, c.Id)
+			}
+		}
+	}
+	return nil
+}
+
 func (r *reader) GetSchema() *api.TypeDescription {
 	return r.schemas[0]
 }
@@ -167,14 +215,20 @@ func (br *batchReader) Close() {
 	for _, s := range br.stripes {
 		s.Close()
 	}
+	if err := br.f.Close(); err != nil {
+		logger.Warn(err)
+	}
 }
 
 func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 	batch.Clear()
 
-	if br.cursor >= br.numberOfRows-1 {
+	if br.cursor >= br.numberOfRows {
 		return true, nil
 	}
+	if batch.Cap() == 0 {
+		return false, errors.New("batch has no room for rows")
+	}
 
 	for br.stripeIndex < len(br.stripes) {
 		stripeEnd, err := br.stripes[br.stripeIndex].next(batch)
@@ -189,28 +243,105 @@ func (br *batchReader) Next(batch *api.ColumnVector) (end bool, err error) {
 			break
 		}
 	}
-	if br.stripeIndex == len(br.stripes) {
-		br.stripeIndex--
-	}
 	br.cursor += uint64(batch.Len())
-	return br.cursor >= br.numberOfRows-1, nil
+	return br.cursor >= br.numberOfRows, nil
 }
 
 func (br *batchReader) Seek(rowNumber uint64) error {
-	if rowNumber > br.numberOfRows {
+	if rowNumber >= br.numberOfRows {
 		return errors.New("row number larger than number of rows")
 	}
 	var rows uint64
 	for i := 0; i < len(br.stripes); i++ {
 		if rows+br.stripes[i].numberOfRows > rowNumber {
-			return br.stripes[i].Seek(rowNumber - rows)
+			if err := br.stripes[i].Seek(rowNumber - rows); err != nil {
+				return err
+			}
+			// stripes after may have been read
+			for _, s := range br.stripes[i+1:] {
+				if s.cursor != 0 || s.err != nil {
+					if err := s.Seek(0); err != nil {
+						return err
+					}
+				}
+			}
+			br.stripeIndex = i
+			br.cursor = rowNumber
+			return nil
 		}
 		rows += br.stripes[i].numberOfRows
 	}
-	br.cursor = rowNumber
 	return errors.New("no row found")
 }
 
+const maxTypeDepth = 1000
+
+// checkTypes make sure types are nodes of one tree, parents before children
+func checkTypes(types []*pb.Type) error {
+	if len(types) == 0 {
+		return errors.New("file footer error, no types")
+	}
+	depths := make([]int, len(types))
+	depths[0] = 1
+	for i, t := range types {
+		if depths[i] == 0 {
+			return errors.Errorf("type %d has no parent", i)
+		}
+		n := len(t.Subtypes)
+		switch t.GetKind() {
+		case pb.Type_STRUCT:
+			if len(t.FieldNames) != n {
+				return errors.Errorf("type %d has %d children, but %d names", i, n, len(t.FieldNames))
+			}
+		case pb.Type_LIST:
+			if n != 1 {
+				return errors.Errorf("list type %d has %d children", i, n)
+			}
+		case pb.Type_MAP:
+			if n != 2 {
+				return errors.Errorf("map type %d has %d children", i, n)
+			}
+		case pb.Type_UNION:
+		default:
+			if n != 0 {
+				return errors.Errorf("type %d has %d children", i, n)
+			}
+		}
+		for _, sub := range t.Subtypes {
+			if sub >= uint32(len(types)) || sub <= uint32(i) || depths[sub] != 0 {
+				return errors.Errorf("type %d has child %d, types are not a tree", i, sub)
+			}
+			if depths[sub] = depths[i] + 1; depths[sub] > maxTypeDepth {
+				return errors.Errorf("type %d nested too deep", sub)
+			}
+		}
+	}
+	return nil
+}
+
+// checkStripes make sure stripes are inside of file, and have all rows
+func checkStripes(tail *pb.FileTail) error {
+	end := tail.GetFileLength() - tail.GetPostscriptLength() - 1 - tail.Postscript.GetFooterLength() - tail.Postscript.GetMetadataLength()
+	var rows uint64
+	for i, s := range tail.Footer.GetStripes() {
+		left := end
+		for _, l := range []uint64{s.GetOffset(), s.GetIndexLength(), s.GetDataLength(), s.GetFooterLength()} {
+			if l > left {
+				return errors.Errorf("stripe %d is out of file, %s", i, s.String())
+			}
+			left -= l
+		}
+		if s.GetNumberOfRows() > tail.Footer.GetNumberOfRows()-rows {
+			return errors.Errorf("stripe %d has too many rows, %s", i, s.String())
+		}
+		rows += s.GetNumberOfRows()
+	}
+	if rows != tail.Footer.GetNumberOfRows() {
+		return errors.Errorf("stripes have %d rows, file should have %d", rows, tail.Footer.GetNumberOfRows())
+	}
+	return nil
+}
+
 func unmarshallSchema(types []*pb.Type) (schemas []*api.TypeDescription) {
 	schemas = make([]*api.TypeDescription, len(types))
 	for i, t := range types {
@@ -221,7 +352,7 @@ func unmarshallSchema(types []*pb.Type) (schemas []*api.TypeDescription) {
 			schemas[i].Children = make([]*api.TypeDescription, len(t.Subtypes))
 			schemas[i].ChildrenNames = make([]string, len(t.Subtypes))
 			for j, sub := range t.Subtypes {
-				if t.GetKind() == pb.Type_STRUCT { // only struct has children names?
+				if t.GetKind() == pb.Type_STRUCT && j < len(t.FieldNames) { // only struct has children names?
 					schemas[i].ChildrenNames[j] = t.FieldNames[j]
 				}
 				schemas[i].Children[j] = schemas[sub]
@@ -261,8 +392,7 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 		// Hive often creates empty files (including ORC) and has an
 		// optimization to create a 0 byte file as an empty ORC file.
 		// todo: empty tail, log
-		fmt.Printf("file size 0")
-		return
+		return nil, errors.New("file size 0")
 	}
 	if size <= int64(len(Magic)) {
 		return nil, errors.New("not a valid orc file")
@@ -282,10 +412,16 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 	// read postScript
 	psLen := int64(buf[readSize-1])
 	psOffset := readSize - 1 - psLen
+	if psLen == 0 || psOffset < 0 {
+		return nil, errors.Errorf("malformed ORC file, invalid postscript length %d", psLen)
+	}
 	ps, err := extractPostScript(buf[psOffset : psOffset+psLen])
 	if err != nil {
 		return nil, err
 	}
+	if left := uint64(size - 1 - psLen); ps.GetFooterLength() > left || ps.GetMetadataLength() > left-ps.GetFooterLength() {
+		return nil, errors.Errorf("malformed ORC file, invalid postscript %s", ps.String())
+	}
 	footerSize := int64(ps.GetFooterLength()) // compressed footer length
 	metaSize := int64(ps.GetMetadataLength())
 
@@ -301,15 +437,15 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 			return nil, errors.WithStack(err)
 		}
 		// refactor: array allocated
-		buf = append(buf, ebuf...)
+		buf = append(ebuf, buf...)
+		psOffset += extra
 	}
 
 	// read file footer
 	footerStart := psOffset - footerSize
 	footerBuf := buf[footerStart : footerStart+footerSize]
 	if ps.GetCompression() != pb.CompressionKind_NONE {
-		fb := bytes.NewBuffer(make([]byte, ps.GetCompressionBlockSize()))
-		fb.Reset()
+		fb := &bytes.Buffer{}
 		if err := common.DecompressChunks(ps.GetCompression(), fb, bytes.NewBuffer(footerBuf)); err != nil {
 			return nil, errors.WithStack(err)
 		}
@@ -347,6 +483,9 @@ func extractPostScript(buf []byte) (ps *pb.PostScript, err error) {
 	if err = proto.Unmarshal(buf, ps); err != nil {
 		return nil, errors.Wrapf(err, "unmarshall postscript err")
 	}
+	if ps.GetMagic() != Magic {
+		return nil, errors.New("malformed ORC file, invalid postscript")
+	}
 	if err = checkOrcVersion(ps); err != nil {
 		return nil, errors.Wrapf(err, "check orc version error")
 	}
-- 
2.43.0


From 26c6107a5f4145a6c16ac246fea4e3b33be09a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:35 +0000
Subject: [PATCH 25/40] fix: writer refuses bad options and batches, and keeps
 failing after a failed write

---
 orc/writer.go | 149 ++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 131 insertions(+), 18 deletions(-)

diff --git a/orc/writer.go b/orc/writer.go
index 1b19fa5..74d606f 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -33,6 +33,7 @@ func NewOSFileWriter(path string, schema *api.TypeDescription, opts config.Write
 	}
 	w, err := newWriter(schema, &opts, f)
 	if err != nil {
+		f.Close()
 		return nil, err
 	}
 	return w, nil
@@ -48,6 +49,13 @@ func newWriter(schema *api.TypeDescription, opts *config.WriterOptions, f orcio.
 		return
 	}
 
+	if err = checkSchemas(schemas); err != nil {
+		return
+	}
+	if err = checkOptions(opts); err != nil {
+		return
+	}
+
 	w = &writer{opts: opts, f: f, schemas: schemas}
 
 	var h uint64
@@ -64,6 +72,39 @@ func newWriter(schema *api.TypeDescription, opts *config.WriterOptions, f orcio.
 	return
 }
 
+// checkSchemas ids should be columns' numbers
+func checkSchemas(schemas []*api.TypeDescription) error {
+	for i, schema := range schemas {
+		if schema.Id != uint32(i) {
+			return errors.Errorf("schema id %d should be %d, schema is not normalized", schema.Id, i)
+		}
+		if schema.Kind == pb.Type_STRUCT && len(schema.Children) != len(schema.ChildrenNames) {
+			return errors.Errorf("schema %d has %d children, but %d names", i, len(schema.Children), len(schema.ChildrenNames))
+		}
+	}
+	return nil
+}
+
+func checkOptions(opts *config.WriterOptions) error {
+	switch opts.CompressionKind {
+	case pb.CompressionKind_NONE:
+		if opts.ChunkSize < 0 {
+			return errors.Errorf("ChunkSize %d error", opts.ChunkSize)
+		}
+	case pb.CompressionKind_ZLIB:
+		// length in a chunk header is 23 bits
+		if opts.ChunkSize <= 0 || opts.ChunkSize >= 1<<23 {
+			return errors.Errorf("ChunkSize %d error", opts.ChunkSize)
+		}
+	default:
+		return errors.Errorf("compression %s not impl", opts.CompressionKind.String())
+	}
+	if opts.WriteIndex && opts.IndexStride <= 0 {
+		return errors.Errorf("IndexStride %d error", opts.IndexStride)
+	}
+	return nil
+}
+
 // cannot used concurrently, not synchronized
 // strip buffered in memory until the strip size
 // Encode out by columns
@@ -80,50 +121,122 @@ type writer struct {
 	ps *pb.PostScript
 
 	f orcio.File
+
+	// first write error, file is broken since then
+	err error
 }
 
 func (w *writer) Write(vec *api.ColumnVector) error {
-	/*if err := w.CheckBatch(vec); err != nil {
+	if w.err != nil {
+		return w.err
+	}
+	// nothing is written if there is something wrong with batch
+	if err := w.CheckBatch(vec); err != nil {
 		return err
-	}*/
+	}
 
-	if err := w.stripe.write(vec); err != nil {
-		return err
+	if w.err = w.stripe.write(vec); w.err != nil {
+		return w.err
 	}
 	return nil
 }
 
 func (w *writer) CheckBatch(batch *api.ColumnVector) error {
-	for _, v := range batch.Vector {
-		if v.Null && !w.schemas[batch.Id].HasNulls {
-			return errors.Errorf("schema %d %s has no nulls, but batch has null", batch.Id, w.schemas[batch.Id].Kind.String())
+	return w.checkVector(w.schemas[0], batch, batch.Len(), func(i int) bool { return false })
+}
+
+// checkVector values of rows which parent is null are ignored
+func (w *writer) checkVector(schema *api.TypeDescription, vec *api.ColumnVector, rows int, parentNull func(i int) bool) error {
+	if vec == nil || vec.Id != schema.Id || len(vec.Children) != len(schema.Children) {
+		return errors.Errorf("batch is not of schema %d", schema.Id)
+	}
+
+	null := parentNull
+	if schema.Kind == pb.Type_STRUCT && len(vec.Vector) == 0 { // struct maybe no vector, all of them are present
+		rows = vec.Len()
+	} else {
+		if len(vec.Vector) != rows {
+			return errors.Errorf("batch has %d rows, but schema %d has %d values", rows, schema.Id, len(vec.Vector))
+		}
+		null = func(i int) bool { return parentNull(i) || vec.Vector[i].Null }
+		for i, v := range vec.Vector {
+			if parentNull(i) {
+				continue
+			}
+			if v.Null && !schema.HasNulls {
+				return errors.Errorf("schema %d %s has no nulls, but batch has null", schema.Id, schema.Kind.String())
+			}
+			if !v.Null && !isValueOf(schema.Kind, v.V) {
+				return errors.Errorf("schema %d %s cannot have value %v", schema.Id, schema.Kind.String(), v.V)
+			}
 		}
 	}
-	for _, c := range batch.Children {
-		if err := w.CheckBatch(c); err != nil {
+
+	for i, c := range schema.Children {
+		if err := w.checkVector(c, vec.Children[i], rows, null); err != nil {
 			return err
 		}
 	}
 	return nil
 }
 
+func isValueOf(kind pb.Type_Kind, v interface{}) (ok bool) {
+	switch kind {
+	case pb.Type_BOOLEAN:
+		_, ok = v.(bool)
+	case pb.Type_BYTE:
+		_, ok = v.(byte)
+	case pb.Type_SHORT:
+		_, ok = v.(int16)
+	case pb.Type_INT:
+		_, ok = v.(int32)
+	case pb.Type_LONG:
+		_, ok = v.(int64)
+	case pb.Type_FLOAT:
+		_, ok = v.(float32)
+	case pb.Type_DOUBLE:
+		_, ok = v.(float64)
+	case pb.Type_STRING, pb.Type_CHAR, pb.Type_VARCHAR:
+		_, ok = v.(string)
+	case pb.Type_BINARY:
+		_, ok = v.([]byte)
+	case pb.Type_DATE:
+		_, ok = v.(api.Date)
+	case pb.Type_TIMESTAMP:
+		_, ok = v.(api.Timestamp)
+	case pb.Type_DECIMAL:
+		_, ok = v.(api.Decimal64)
+	default:
+		ok = true
+	}
+	return
+}
+
 func (w *writer) GetSchema() *api.TypeDescription {
 	return w.schemas[0]
 }
 
 func (w *writer) Close() error {
-	if err := w.stripe.flushOut(); err != nil {
-		return err
+	err := w.err
+	if err == nil {
+		err = w.writeOut()
 	}
-	w.stripe.infos = append(w.stripe.infos, w.stripe.info)
-
-	if err := w.writeFileTail(); err != nil {
-		return err
+	if cerr := w.f.Close(); err == nil {
+		err = cerr
 	}
-	if err:=w.f.Close();err!=nil {
-		logger.Warn(err)
+	return err
+}
+
+// writeOut write rows left and file tail
+func (w *writer) writeOut() error {
+	if w.stripe.info.GetNumberOfRows() != 0 { // last stripe may have been written out
+		if err := w.stripe.flushOut(); err != nil {
+			return err
+		}
+		w.stripe.infos = append(w.stripe.infos, w.stripe.info)
 	}
-	return nil
+
+	return w.writeFileTail()
 }
 
 func (w *writer) writeHeader() (uint64, error) {
-- 
2.43.0


From c8d9a9061dcf4ff711b17222d81c939f6adedd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:38 +0000
Subject: [PATCH 26/40] fix: float columns of an encoding the reader refuses
 are not written

---
 orc/column/package.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/orc/column/package.go b/orc/column/package.go
index 6f073af..e39e889 100644
--- a/orc/column/package.go
+++ b/orc/column/package.go
@@ -245,8 +245,14 @@ func NewWriter(schema *api.TypeDescription, opts *config.WriterOptions) (Writer,
 		return nil, errors.New("encoding not impl")
 
 	case pb.Type_FLOAT:
+		if schema.Encoding != pb.ColumnEncoding_DIRECT {
+			return nil, errors.New("encoding error")
+		}
 		return newFloatWriter(schema, opts, false), nil
 	case pb.Type_DOUBLE:
+		if schema.Encoding != pb.ColumnEncoding_DIRECT {
+			return nil, errors.New("encoding error")
+		}
 		return newFloatWriter(schema, opts, true), nil
 
 	case pb.Type_CHAR:
-- 
2.43.0


From d12fe08c0ec68d05e886879cbe971c11c00454ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:56 +0000
Subject: [PATCH 27/40] fix: direct runs of zeros have a width

---
 orc/encoding/int.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/encoding/int.go b/orc/encoding/int.go
index e821209..061b330 100644
--- a/orc/encoding/int.go
+++ b/orc/encoding/int.go
@@ -536,6 +536,9 @@ func (e *intRLV2Encoder) writeDirect(out *bytes.Buffer, widthAlign bool) error {
 		}
 	}
 
+	if width == 0 { // all zeros, there is no width 0 in direct
+		width = 1
+	}
 	encodedWidth, err := widthEncoding(width)
 	if err != nil {
 		return errors.WithStack(err)
-- 
2.43.0


From 72703839f27d8b2592476789f91b50d4e606da71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:22 +0000
Subject: [PATCH 28/40] fix: date encoder writes dates

---
 orc/encoding/time.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orc/encoding/time.go b/orc/encoding/time.go
index c124e56..fa26365 100644
--- a/orc/encoding/time.go
+++ b/orc/encoding/time.go
@@ -16,7 +16,7 @@ type dateV2Encoder struct {
 func (e *dateV2Encoder) Encode(v interface{}, out *bytes.Buffer) error {
 	date := v.(api.Date)
 	days := api.ToDays(date)
-	if err := e.intEncoder.Encode(days, out); err != nil {
+	if err := e.intEncoder.Encode(int64(days), out); err != nil {
 		return err
 	}
 	return nil
-- 
2.43.0


From 700193d8f17a484fadda970013356c558f580d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:23 +0000
Subject: [PATCH 29/40] fix: broken chunks of the file tail are errors

---
 orc/reader.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index 16fe530..f0e2d23 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"compress/flate"
 	"io"
+	"io/ioutil"
 	"os"
 
 	"github.com/golang/protobuf/proto"
@@ -543,16 +544,20 @@ func Max(x, y int64) int64 {
 
 func ReadChunks(chunksBuf []byte, compressKind pb.CompressionKind, chunkBufferSize int) (decompressed []byte, err error) {
 	for offset := 0; offset < len(chunksBuf); {
+		if len(chunksBuf)-offset < 3 {
+			return nil, errors.New("chunk header truncated")
+		}
 		// header
 		original := (chunksBuf[offset] & 0x01) == 1
 		chunkLength := int(chunksBuf[offset+2])<<15 | int(chunksBuf[offset+1])<<7 |
 			int(chunksBuf[offset])>>1
-		buf := make([]byte, chunkBufferSize)
-		//fixme:
 		if chunkLength > chunkBufferSize {
 			return nil, errors.New("chunk length larger than compression block size")
 		}
 		offset += 3
+		if len(chunksBuf)-offset < chunkLength {
+			return nil, errors.New("chunk truncated")
+		}
 
 		if original {
 			//fixme:
@@ -561,16 +566,19 @@ func ReadChunks(chunksBuf []byte, compressKind pb.CompressionKind, chunkBufferSi
 			switch compressKind {
 			case pb.CompressionKind_ZLIB:
 				r := flate.NewReader(bytes.NewReader(chunksBuf[offset : offset+chunkLength]))
-				n, err := r.Read(buf)
+				// a chunk holds no more than the chunk size, and has an end
+				buf, err := ioutil.ReadAll(io.LimitReader(r, int64(chunkBufferSize)+1))
 				r.Close()
-				if err != nil && err != io.EOF {
+				if err != nil {
 					return nil, errors.Wrapf(err, "decompress chunk data error when read footer")
 				}
-				if n == 0 {
+				if len(buf) == 0 {
 					return nil, errors.New("decompress 0 footer")
 				}
-				//fixme:
-				decompressed = append(decompressed, buf[:n]...)
+				if len(buf) > chunkBufferSize {
+					return nil, errors.New("decompressed chunk larger than compression block size")
+				}
+				decompressed = append(decompressed, buf...)
 			default:
 				//todo:
 				return nil, errors.New("compress other than zlib not implemented")
-- 
2.43.0


From 69ace0b16e93e74c270d5e07801b7a618d41369a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:30 +0000
Subject: [PATCH 30/40] fix: dictionary columns can be written without row
 index

---
 orc/column/string.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orc/column/string.go b/orc/column/string.go
index 09e6fbd..0099361 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -612,8 +612,8 @@ func (w *stringDictionaryV2Writer) Flush() error {
 	group := 0
 	for i := 0; i <= len(data); i++ {
 		for ; group < len(w.groups) && w.groups[group] == i; group++ {
-			if group < len(w.index.Entry) {
-				entry := w.index.Entry[group]
+			if entries := w.index.GetEntry(); group < len(entries) {
+				entry := entries[group]
 				entry.Positions = append(entry.Positions, w.dataStream.GetPosition()...)
 			}
 		}
-- 
2.43.0


From eee4da8e350f7345467c3fac987adf5b05e2aa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:03 +0000
Subject: [PATCH 31/40] fix: files without rows can be read

---
 orc/reader.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/orc/reader.go b/orc/reader.go
index f0e2d23..8674235 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -55,9 +55,6 @@ func newReader(f orcio.File) (r *reader, err error) {
 	opts.IndexStride = int(tail.Footer.GetRowIndexStride())
 
 	rows := tail.GetFooter().GetNumberOfRows()
-	if rows == 0 {
-		return nil, errors.New("file footer error, number of rows 0")
-	}
 
 	if err = checkTypes(tail.Footer.Types); err != nil {
 		return nil, err
-- 
2.43.0


From 710339ff4b2bbbffc9842cf56d134914ad3fa2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:14 +0000
Subject: [PATCH 32/40] fix: writing to a closed writer is an error

---
 orc/writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orc/writer.go b/orc/writer.go
index 74d606f..7db82c0 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -224,6 +224,9 @@ func (w *writer) Close() error {
 	if cerr := w.f.Close(); err == nil {
 		err = cerr
 	}
+	if w.err == nil { // rows written since then would be lost
+		w.err = errors.New("writer is closed")
+	}
 	return err
 }
 
-- 
2.43.0


From 76f6ddb6340c049aa0b56dcc9db37578dfdc1c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:54 +0000
Subject: [PATCH 33/40] fix: a chunk which reaches beyond its stream is an
 error

---
 orc/stream/reader.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index bf76fbe..1ff1bab 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -140,11 +140,16 @@ func (r *reader) readAChunk() error {
 		return nil
 	}
 
+	left := r.info.GetLength() - r.readLength
+	if left < 3 {
+		return errors.Errorf("stream %s ends in a chunk header", r.info.String())
+	}
 	head := make([]byte, 3)
 	if _, err := io.ReadFull(r.f, head); err != nil {
 		return errors.WithStack(err)
 	}
 	r.readLength += 3
+	left -= 3
 	chunkLength, original := common.DecChunkHeader(head)
 
 	logger.Tracef("will read a chunk, stream %s, compressing %s, chunkLength %d, original %t",
@@ -154,6 +159,10 @@ func (r *reader) readAChunk() error {
 		return errors.Errorf("chunk length %d larger than chunk size %d", chunkLength, r.opts.ChunkSize)
 	}
 
+	if uint64(chunkLength) > left { // what follows is of another stream
+		return errors.Errorf("stream %s ends in a chunk of length %d", r.info.String(), chunkLength)
+	}
+
 	if original {
 		if _, err := io.CopyN(r.buf, r.f, int64(chunkLength)); err != nil {
 			return errors.WithStack(err)
-- 
2.43.0


From 54dfc4400e8c1f5befcc425046d8e0d2dcbd10cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:56 +0000
Subject: [PATCH 34/40] fix: loading a string dictionary again after an error
 starts from the beginning

---
 orc/column/string.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/orc/column/string.go b/orc/column/string.go
index 0099361..b40f91d 100644
--- a/orc/column/string.go
+++ b/orc/column/string.go
@@ -384,6 +384,14 @@ func (r *StringDictionaryV2Reader) NextBatch(vec *api.ColumnVector) error {
 	var err error
 
 	if !r.dictLoaded {
+		// loading may have failed half way before
+		r.dictStrings = r.dictStrings[:0]
+		if err = r.length.Seek(0, 0, 0); err != nil {
+			return err
+		}
+		if err = r.dict.Seek(0, 0); err != nil {
+			return err
+		}
 		for ; !r.length.Finished(); {
 			var l uint64
 			if l, err = r.length.NextUInt64(); err != nil {
-- 
2.43.0


From 7cb278de31d4049c151085b4664af6e81ca4dfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:51 +0000
Subject: [PATCH 35/40] fix: batches with nil children are refused, structs
 without fields are counted

---
 orc/api/vector.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index 28939ef..8cfb303 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -48,6 +48,9 @@ type ColumnVector struct {
 }
 
 func (cv *ColumnVector) Clear() {
+	if cv == nil {
+		return
+	}
 	cv.Vector = cv.Vector[:0]
 	for i := 0; i < len(cv.Children); i++ {
 		cv.Children[i].Clear()
@@ -59,10 +62,12 @@ func (cv ColumnVector) Len() int {
 		return len(cv.Vector)
 	}
 	for _, c := range cv.Children {
-		if len(c.Vector) != 0 {
-			return len(c.Vector)
+		if c == nil {
+			continue
+		}
+		if l := c.Len(); l != 0 {
+			return l
 		}
-		return c.Len()
 	}
 	return 0
 }
@@ -72,7 +77,12 @@ func (cv ColumnVector) Cap() int {
 		return cap(cv.Vector)
 	} else {
 		for _, c := range cv.Children {
-			return c.Cap()
+			if c == nil {
+				continue
+			}
+			if l := c.Cap(); l != 0 {
+				return l
+			}
 		}
 	}
 	return 0
-- 
2.43.0


From 101ca57766353741d62c5456afc3936bc7e73180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:52 +0000
Subject: [PATCH 36/40] fix: batches with structs of another number of rows are
 refused

---
 orc/writer.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/orc/writer.go b/orc/writer.go
index 7db82c0..b8b029a 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -152,9 +152,7 @@ func (w *writer) checkVector(schema *api.TypeDescription, vec *api.ColumnVector,
 	}
 
 	null := parentNull
-	if schema.Kind == pb.Type_STRUCT && len(vec.Vector) == 0 { // struct maybe no vector, all of them are present
-		rows = vec.Len()
-	} else {
+	if schema.Kind != pb.Type_STRUCT || len(vec.Vector) != 0 { // struct maybe no vector, all of them are present
 		if len(vec.Vector) != rows {
 			return errors.Errorf("batch has %d rows, but schema %d has %d values", rows, schema.Id, len(vec.Vector))
 		}
-- 
2.43.0


From f05cb98807915b87d1feccf6e055f0c23566a798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:17 +0000
Subject: [PATCH 37/40] fix: a chunk which is larger than the chunk size when
 decompressed is an error

---
 orc/column/reader.go |  2 +-
 orc/common/misc.go   | 52 ++++++++++++++++++++++++++++----------------
 orc/reader.go        |  2 +-
 orc/stream/reader.go |  2 +-
 orc/stripe.go        |  2 +-
 5 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/orc/column/reader.go b/orc/column/reader.go
index 080747e..0eb02e7 100644
--- a/orc/column/reader.go
+++ b/orc/column/reader.go
@@ -114,7 +114,7 @@ func (r *reader) InitIndex(startOffset uint64, length uint64) error {
 		buf = tBuf
 	} else {
 		cBuf := &bytes.Buffer{}
-		if err := common.DecompressChunks(r.opts.CompressionKind, cBuf, bytes.NewBuffer(tBuf)); err != nil {
+		if err := common.DecompressSizedChunks(r.opts.CompressionKind, r.opts.ChunkSize, cBuf, bytes.NewBuffer(tBuf)); err != nil {
 			return err
 		}
 		buf = cBuf.Bytes()
diff --git a/orc/common/misc.go b/orc/common/misc.go
index cfa37ff..b64b0f3 100644
--- a/orc/common/misc.go
+++ b/orc/common/misc.go
@@ -229,8 +229,32 @@ func DecChunkHeader(h []byte) (length int, orig bool) {
 	return int(h[2])<<15 | int(h[1])<<7 | int(h[0])>>1, h[0]&0x01 == 0x01
 }
 
+// MaxChunkSize is the largest chunk of which the length can be in a chunk header
+const MaxChunkSize = 1<<23 - 1
+
+// inflate decompresses a chunk, it cannot be larger than chunk size
+func inflate(chunkSize uint64, dst *bytes.Buffer, src *bytes.Buffer) (n int64, err error) {
+	if chunkSize > MaxChunkSize {
+		chunkSize = MaxChunkSize
+	}
+	r := flate.NewReader(src)
+	defer r.Close()
+	if n, err = dst.ReadFrom(io.LimitReader(r, int64(chunkSize)+1)); err != nil {
+		return n, errors.WithStack(err)
+	}
+	if uint64(n) > chunkSize {
+		return n, errors.Errorf("chunk decompressed is larger than chunk size %d", chunkSize)
+	}
+	return n, nil
+}
+
 // buffer should be compressed, maybe contains several chunks
 func DecompressChunks(kind pb.CompressionKind, dst *bytes.Buffer, src *bytes.Buffer) (err error) {
+	return DecompressSizedChunks(kind, MaxChunkSize, dst, src)
+}
+
+// DecompressSizedChunks decompresses chunks, none of them is larger than chunk size when decompressed
+func DecompressSizedChunks(kind pb.CompressionKind, chunkSize uint64, dst *bytes.Buffer, src *bytes.Buffer) (err error) {
 	switch kind {
 	case pb.CompressionKind_ZLIB:
 		for src.Len() > 0 {
@@ -251,12 +275,8 @@ func DecompressChunks(kind pb.CompressionKind, dst *bytes.Buffer, src *bytes.Buf
 				if _, err = io.CopyN(buf, src, int64(chunkLength)); err != nil {
 					return errors.WithStack(err)
 				}
-				r := flate.NewReader(buf)
-				if _, err = io.Copy(dst, r); err != nil {
-					return errors.WithStack(err)
-				}
-				if err = r.Close(); err != nil {
-					return errors.WithStack(err)
+				if _, err = inflate(chunkSize, dst, buf); err != nil {
+					return err
 				}
 			}
 		}
@@ -267,24 +287,18 @@ func DecompressChunks(kind pb.CompressionKind, dst *bytes.Buffer, src *bytes.Buf
 }
 
 func Decompress(kind pb.CompressionKind, dst *bytes.Buffer, src *bytes.Buffer) (n int64, err error) {
+	return DecompressSized(kind, MaxChunkSize, dst, src)
+}
+
+// DecompressSized decompresses one chunk, which is not larger than chunk size when decompressed
+func DecompressSized(kind pb.CompressionKind, chunkSize uint64, dst *bytes.Buffer, src *bytes.Buffer) (n int64, err error) {
 	switch kind {
 
 	case pb.CompressionKind_ZLIB:
-		/*r, err := zlib.NewReader(src)
-		if err != nil {
-			return 0, errors.WithStack(err)
-		}*/
-
-		r := flate.NewReader(src)
-		if n, err = dst.ReadFrom(r);err != nil {
-			return 0, errors.WithStack(err)
+		if n, err = inflate(chunkSize, dst, src); err != nil {
+			return 0, err
 		}
 
-		defer r.Close()
-		/*if err = r.Close(); err != nil {
-			return n, errors.WithStack(err)
-		}*/
-
 	default:
 		return 0, errors.New("compression kind other than zlib not impl")
 	}
diff --git a/orc/reader.go b/orc/reader.go
index 8674235..aa80d21 100755
--- a/orc/reader.go
+++ b/orc/reader.go
@@ -444,7 +444,7 @@ func extractFileTail(f orcio.File) (tail *pb.FileTail, err error) {
 	footerBuf := buf[footerStart : footerStart+footerSize]
 	if ps.GetCompression() != pb.CompressionKind_NONE {
 		fb := &bytes.Buffer{}
-		if err := common.DecompressChunks(ps.GetCompression(), fb, bytes.NewBuffer(footerBuf)); err != nil {
+		if err := common.DecompressSizedChunks(ps.GetCompression(), ps.GetCompressionBlockSize(), fb, bytes.NewBuffer(footerBuf)); err != nil {
 			return nil, errors.WithStack(err)
 		}
 		footerBuf = fb.Bytes()
diff --git a/orc/stream/reader.go b/orc/stream/reader.go
index 1ff1bab..2c4497c 100644
--- a/orc/stream/reader.go
+++ b/orc/stream/reader.go
@@ -172,7 +172,7 @@ func (r *reader) readAChunk() error {
 		if _, err := io.CopyN(r.cmpBuf, r.f, int64(chunkLength)); err != nil {
 			return errors.WithStack(err)
 		}
-		if _, err := common.Decompress(r.opts.CompressionKind, r.buf, r.cmpBuf); err != nil {
+		if _, err := common.DecompressSized(r.opts.CompressionKind, r.opts.ChunkSize, r.buf, r.cmpBuf); err != nil {
 			return err
 		}
 	}
diff --git a/orc/stripe.go b/orc/stripe.go
index 2f175a1..2ca1f32 100644
--- a/orc/stripe.go
+++ b/orc/stripe.go
@@ -263,7 +263,7 @@ func (stripe *stripeReader) readFooter(info *pb.StripeInformation) (*pb.StripeFo
 	}
 	if stripe.ropts.CompressionKind != pb.CompressionKind_NONE {
 		fb := &bytes.Buffer{}
-		if err := common.DecompressChunks(stripe.ropts.CompressionKind, fb, bytes.NewBuffer(footerBuf)); err != nil {
+		if err := common.DecompressSizedChunks(stripe.ropts.CompressionKind, stripe.ropts.ChunkSize, fb, bytes.NewBuffer(footerBuf)); err != nil {
 			return nil, err
 		}
 		footerBuf = fb.Bytes()
-- 
2.43.0


From b2f079fb2166c00b5c3a3257e52f0a716adc9852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:19 +0000
Subject: [PATCH 38/40] fix: a file which has been replaced is not read instead
 of the one opened

---
 orc/io/file.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/orc/io/file.go b/orc/io/file.go
index 0d5a95d..c4f8b5e 100644
--- a/orc/io/file.go
+++ b/orc/io/file.go
@@ -52,9 +52,29 @@ func (f *osFile) Clone() (File, error) {
 	if err != nil {
 		return nil, err
 	}
+	if err := f.checkSame(r); err != nil {
+		r.Close()
+		return nil, err
+	}
 	return &osFile{f.path, r}, nil
 }
 
+// checkSame another file may be there by now
+func (f *osFile) checkSame(r *os.File) error {
+	fi, err := f.f.Stat()
+	if err != nil {
+		return errors.WithStack(err)
+	}
+	ri, err := r.Stat()
+	if err != nil {
+		return errors.WithStack(err)
+	}
+	if !os.SameFile(fi, ri) {
+		return errors.Errorf("file %s has been replaced", f.path)
+	}
+	return nil
+}
+
 func (f *osFile) Size() (int64, error) {
 	fi, err := f.f.Stat()
 	if err != nil {
-- 
2.43.0


From e1b10329d64fc7a9df167cdaa88f506ad0c60d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:20 +0000
Subject: [PATCH 39/40] fix: dates and nanoseconds out of range are refused,
 not written as others

---
 orc/api/vector.go | 6 ++++++
 orc/writer.go     | 8 ++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/orc/api/vector.go b/orc/api/vector.go
index 8cfb303..e449b95 100755
--- a/orc/api/vector.go
+++ b/orc/api/vector.go
@@ -146,6 +146,12 @@ func ToDays(d Date) int32 {
 	return int32(days)
 }
 
+// IsDays days of date fit in 32 bits
+func IsDays(d Date) bool {
+	s := time.Time(d).Unix()
+	return s >= math.MinInt32*secondsPerDay && s < (math.MaxInt32+1)*secondsPerDay
+}
+
 type Timestamp struct {
 	Loc     *time.Location
 	Seconds int64
diff --git a/orc/writer.go b/orc/writer.go
index b8b029a..bd6772f 100755
--- a/orc/writer.go
+++ b/orc/writer.go
@@ -199,9 +199,13 @@ func isValueOf(kind pb.Type_Kind, v interface{}) (ok bool) {
 	case pb.Type_BINARY:
 		_, ok = v.([]byte)
 	case pb.Type_DATE:
-		_, ok = v.(api.Date)
+		var d api.Date
+		d, ok = v.(api.Date)
+		ok = ok && api.IsDays(d)
 	case pb.Type_TIMESTAMP:
-		_, ok = v.(api.Timestamp)
+		var t api.Timestamp
+		t, ok = v.(api.Timestamp)
+		ok = ok && t.Nanos < 1_000_000_000
 	case pb.Type_DECIMAL:
 		_, ok = v.(api.Decimal64)
 	default:
-- 
2.43.0


From a1ac4f31a8f577bbb5e4549897f4d8e16533b8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:21 +0000
Subject: [PATCH 40/40] fix: timestamps too large for milliseconds have no
 minimum and maximum

---
 orc/column/time.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/orc/column/time.go b/orc/column/time.go
index 2ec630e..8127a32 100644
--- a/orc/column/time.go
+++ b/orc/column/time.go
@@ -331,9 +331,21 @@ func (w *timestampWriter) Write(value api.Value) error {
 	return nil
 }
 
+// MaxTimestampSeconds milliseconds of larger timestamps do not fit in 64 bits
+const MaxTimestampSeconds = 1 << 53
+
+// minimum and maximum will be dropped if there is a timestamp too large
 func updateTimestampStats(stats *pb.ColumnStatistics, t api.Timestamp) {
 	ts := stats.TimestampStatistics
 	first := *stats.NumberOfValues == 0
+	*stats.NumberOfValues++
+
+	if t.Seconds > MaxTimestampSeconds || t.Seconds < -MaxTimestampSeconds {
+		ts.Minimum, ts.Maximum, ts.MinimumUtc, ts.MaximumUtc = nil, nil, nil, nil
+	}
+	if ts.Minimum == nil {
+		return
+	}
 
 	ms := t.GetMilliSeconds()
 	if first || ms < ts.GetMinimum() {
@@ -349,8 +361,6 @@ func updateTimestampStats(stats *pb.ColumnStatistics, t api.Timestamp) {
 	if first || msUtc > ts.GetMaximumUtc() {
 		*ts.MaximumUtc = msUtc
 	}
-
-	*stats.NumberOfValues++
 }
 
 func (w *timestampWriter) Flush() error {
-- 
2.43.0

