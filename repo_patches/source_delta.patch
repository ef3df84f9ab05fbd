From a6a0c958b4737269a1c745e4bc5763b6a12b7817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 01/15] fix: DryCheck of byte lists enforces the limit, like
 Decode

---
 types/ssz_bytes.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types/ssz_bytes.go b/types/ssz_bytes.go
index 644ea36..ef3427c 100644
--- a/types/ssz_bytes.go
+++ b/types/ssz_bytes.go
@@ -92,7 +92,11 @@ func (v *SSZBytes) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 }
 
 func (v *SSZBytes) DryCheck(dr *DecodingReader) error {
-	_, err := dr.Skip(dr.GetBytesSpan())
+	span := dr.GetBytesSpan()
+	if span > v.limit {
+		return fmt.Errorf("got %d bytes, expected no more than %d bytes", span, v.limit)
+	}
+	_, err := dr.Skip(span)
 	return err
 }
 
-- 
2.43.0


From 1dddef282c9f115e03f66534ef5ed844d0c4257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 02/15] fix: fuzz-mode basic lists stay within the available
 input and the limit

---
 types/ssz_list_basic.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/types/ssz_list_basic.go b/types/ssz_list_basic.go
index 5477be1..f0e36cb 100644
--- a/types/ssz_list_basic.go
+++ b/types/ssz_list_basic.go
@@ -97,14 +97,15 @@ func (v *SSZBasicList) decodeFuzzmode(dr *DecodingReader, p unsafe.Pointer) erro
 		return err
 	}
 	span := dr.GetBytesSpan()
-	if v.byteLimit > span {
+	// respect type limit
+	if span > v.byteLimit {
 		span = v.byteLimit
 	}
-	if span == 0 {
-		return nil
+	bytesLen := uint64(0)
+	if span != 0 {
+		bytesLen = x % span
+		bytesLen -= bytesLen % v.elemSSZ.FixedLen()
 	}
-	bytesLen := x % span
-	bytesLen -= bytesLen % v.elemSSZ.FixedLen()
 
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
 		contentsPtr := v.alloc.MutateLenOrAllocNew(p, bytesLen/v.elemSSZ.FixedLen())
-- 
2.43.0


From 5f3a978794d25eb6f995a5b0e02d1b4638d3108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 03/15] fix: fuzz-mode bitlists never exceed the bit-limit or
 the fuzz length bound

---
 types/ssz_bitlist.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index f39422c..c6eb5c2 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -50,7 +50,7 @@ func (v *SSZBitlist) FuzzMinLen() uint64 {
 // in bytes (rounded up), not bits
 func (v *SSZBitlist) FuzzMaxLen() uint64 {
 	// 8 for a random byte count, limit for maximum fill
-	return 8 + v.byteLimit
+	return 8 + v.MaxLen()
 }
 
 // in bytes (rounded up), not bits. Includes the delimiting 1 bit.
@@ -111,8 +111,10 @@ func (v *SSZBitlist) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 		return err
 	}
 	if dr.IsFuzzMode() {
-		// mask last byte to stay within bit-limit
-		data[len(data)-1] &= (1 << (v.bitLimit + 1)) - 1
+		// mask last byte of a full-size bitlist to stay within bit-limit
+		if byteLen == v.MaxLen() {
+			data[len(data)-1] &= (1 << ((v.bitLimit & 7) + 1)) - 1
+		}
 		if data[len(data)-1] == 0 {
 			// last byte must not be 0 for bitlist to be valid
 			data[len(data)-1] = 1
-- 
2.43.0


From 5dfd3d5f754e47475b345eacc9afdcae1d28a6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 04/15] fix: fuzz-mode bitvectors clear the unused bits

---
 types/ssz_bitvector.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/ssz_bitvector.go b/types/ssz_bitvector.go
index b3ad2a9..096f8e0 100644
--- a/types/ssz_bitvector.go
+++ b/types/ssz_bitvector.go
@@ -86,6 +86,10 @@ func (v *SSZBitvector) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 	if _, err := dr.Read(data); err != nil {
 		return err
 	}
+	if dr.IsFuzzMode() && v.bitLen&7 != 0 {
+		// mask last byte, the unused bits must be 0 for the bitvector to be valid
+		data[len(data)-1] &= (1 << (v.bitLen & 7)) - 1
+	}
 	// check if the data is a valid bitvector value (0 bits for unused bits)
 	return bitfields.BitvectorCheck(data, v.bitLen)
 }
-- 
2.43.0


From f437e3920aed37193bc938e6f150c72e68a79578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 05/15] fix: fuzz-mode lists respect the element limit

---
 types/ssz_list.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/ssz_list.go b/types/ssz_list.go
index 40ba4f5..49d2651 100644
--- a/types/ssz_list.go
+++ b/types/ssz_list.go
@@ -118,6 +118,10 @@ func (v *SSZList) decodeFuzzmode(dr *DecodingReader, p unsafe.Pointer) error {
 	length := uint64(0)
 	if span != 0 {
 		length = (x % span) / v.elemSSZ.FuzzMinLen()
+		// respect type limit
+		if length > v.limit {
+			length = v.limit
+		}
 	}
 	contentsPtr := v.alloc.MutateLenOrAllocNew(p, length)
 	if v.elemSSZ.IsFixed() {
-- 
2.43.0


From d442ed5d47108adb31b2907158961bddb1bb7d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 06/15] fix: MaxLen of lists with variable-size elements
 includes the offsets

---
 types/ssz_list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/ssz_list.go b/types/ssz_list.go
index 49d2651..d9f6fe3 100644
--- a/types/ssz_list.go
+++ b/types/ssz_list.go
@@ -43,7 +43,7 @@ func NewSSZList(factory SSZFactoryFn, typ reflect.Type) (*SSZList, error) {
 		byteLimit = limit * elemSSZ.FixedLen()
 	} else {
 		fixedElemSize = BYTES_PER_LENGTH_OFFSET
-		byteLimit = limit * elemSSZ.MaxLen()
+		byteLimit = limit * (BYTES_PER_LENGTH_OFFSET + elemSSZ.MaxLen())
 	}
 	res := &SSZList{
 		alloc:         ptrutil.MakeSliceAllocFn(typ),
-- 
2.43.0


From 8298dce3ac41aec1e87f97031ceb891924a42874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 07/15] fix: bitlist root excludes a delimiting bit at the end
 of a full chunk

---
 types/ssz_bitlist.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index c6eb5c2..a984b40 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -149,8 +149,8 @@ func (v *SSZBitlist) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
 	leaf := func(i uint64) []byte {
 		s := i << 5
 		e := (i + 1) << 5
-		// pad the data
-		if e > byteLen {
+		// pad the data, and cut off the delimiting bit if it is within the last leaf
+		if e >= byteLen {
 			x := [32]byte{}
 			copy(x[:], data[s:byteLen])
 			if bitLen&7 != 0 && byteLen != 0 { // if we not already cut off the delimiting bit with a bytes boundary
@@ -162,9 +162,7 @@ func (v *SSZBitlist) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
 			}
 			return x[:]
 		}
-		// if the last leaf does not have to be padded,
-		// then the length-determining bitlist bit is already cut off,
-		// i.e. as sole bit in next (ignored) chunk of data.
+		// not the last leaf, there is no delimiting bit in here.
 		return data[s:e]
 	}
 	return h.MixIn(merkle.Merkleize(h, leafCount, v.leafLimit, leaf), bitLen)
-- 
2.43.0


From 2e954453ad9ff207795e01bd5f20e5b6707b14fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 08/15] fix: ConstructProof includes zero-padded siblings and
 siblings above the content

---
 merkle/merkleize.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/merkle/merkleize.go b/merkle/merkleize.go
index 2a411a5..53725cf 100644
--- a/merkle/merkleize.go
+++ b/merkle/merkleize.go
@@ -151,9 +151,9 @@ func ConstructProof(hasher MerkleFn, count uint64, limit uint64, leaf func(i uin
 		for j = 0; ; j++ {
 			// TODO: better than full tree allocation, but style/efficiency can be improved.
 			// if i is a sibling of index at the given depth,
-			// and i is the last index of the subtree to that depth,
+			// and i is the last index of the subtree to that depth (or the rest of it is zero-padding),
 			// then put h into the branch
-			if (i>>j)^1 == (index>>j) && (((1<<j)-1)&i) == ((1<<j)-1) {
+			if (i>>j)^1 == (index>>j) && (i == count || (((1<<j)-1)&i) == ((1<<j)-1)) {
 				// insert sibling into the proof
 				branch[j] = hArr
 			}
@@ -188,5 +188,14 @@ func ConstructProof(hasher MerkleFn, count uint64, limit uint64, leaf func(i uin
 		merge(count)
 	}
 
+	// the index may be outside of the next power of two of the count,
+	// then the contents, complemented with zero-hashes, are a sibling.
+	for j := depth; j+1 < limitDepth; j++ {
+		tmp[j+1] = hasher.Combi(tmp[j], ZeroHashes[j])
+		if index>>(j+1) == 1 {
+			branch[j+1] = tmp[j+1]
+		}
+	}
+
 	return
 }
-- 
2.43.0


From 0aa1de1b9ba1b84c46ac05cb8c1965c0afb4c1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 09/15] fix: big-endian basic vector decoding reads length
 elements, not bytes

---
 types/ssz_vector_basic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/ssz_vector_basic.go b/types/ssz_vector_basic.go
index 92faf44..a3f31d2 100644
--- a/types/ssz_vector_basic.go
+++ b/types/ssz_vector_basic.go
@@ -85,7 +85,7 @@ func (v *SSZBasicVector) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
 		return LittleEndianBasicSeriesDecode(dr, p, v.byteLen, v.byteLen, v.elemKind == reflect.Bool)
 	} else {
-		return DecodeFixedSeries(v.elemSSZ.Decode, v.byteLen, uintptr(v.elemSSZ.FixedLen()), dr, p)
+		return DecodeFixedSeries(v.elemSSZ.Decode, v.length, uintptr(v.elemSSZ.FixedLen()), dr, p)
 	}
 }
 
-- 
2.43.0


From 42ba22c1950daef7a93991d61c83724643c11579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 10/15] fix: accept readers that return the last bytes together
 with EOF

---
 dec/decoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dec/decoder.go b/dec/decoder.go
index 6c500f4..ddf86af 100644
--- a/dec/decoder.go
+++ b/dec/decoder.go
@@ -85,7 +85,8 @@ func (dr *DecodingReader) Read(p []byte) (int, error) {
 	for n < len(p) {
 		v, err := dr.input.Read(p[n:])
 		n += v
-		if err != nil {
+		// a reader may return an error (EOF) together with the last bytes
+		if err != nil && n < len(p) {
 			return n, err
 		}
 	}
-- 
2.43.0


From 9852747131c60e6c0f804f81d11af4fc54dc232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 11/15] fix: check list limits before allocating space for the
 contents

---
 types/ssz_bitlist.go    | 4 ++++
 types/ssz_list_basic.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index a984b40..370abde 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -104,6 +104,10 @@ func (v *SSZBitlist) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 		byteLen += 1
 	} else {
 		byteLen = dr.GetBytesSpan()
+		// check the limit before allocating any space
+		if err := bitfields.BitlistCheckByteLen(byteLen, v.bitLimit); err != nil {
+			return err
+		}
 	}
 	ptrutil.BytesAllocFn(p, byteLen)
 	data := *(*[]byte)(p)
diff --git a/types/ssz_list_basic.go b/types/ssz_list_basic.go
index f0e36cb..db5be02 100644
--- a/types/ssz_list_basic.go
+++ b/types/ssz_list_basic.go
@@ -121,6 +121,10 @@ func (v *SSZBasicList) decode(dr *DecodingReader, p unsafe.Pointer) error {
 	if bytesLen%v.elemSSZ.FixedLen() != 0 {
 		return fmt.Errorf("cannot decode basic type array, input has length %d, not compatible with element length %d", bytesLen, v.elemSSZ.FixedLen())
 	}
+	// check the limit before allocating any space
+	if bytesLimit := v.limit * v.elemSSZ.FixedLen(); bytesLen > bytesLimit {
+		return fmt.Errorf("got %d bytes, expected no more than %d bytes", bytesLen, bytesLimit)
+	}
 
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
 		contentsPtr := v.alloc.MutateLenOrAllocNew(p, bytesLen/v.elemSSZ.FixedLen())
-- 
2.43.0


From 62863489e5184a0ca61e190fa19cdc0da8b892ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:59 +0000
Subject: [PATCH 12/15] fix: bit lengths and bit limits close to 2^64 do not
 wrap around

---
 bitfields/bitvector.go | 3 ++-
 types/ssz_bitlist.go   | 3 ++-
 types/ssz_bitvector.go | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/bitfields/bitvector.go b/bitfields/bitvector.go
index 8cde0a6..cadea36 100644
--- a/bitfields/bitvector.go
+++ b/bitfields/bitvector.go
@@ -30,7 +30,8 @@ func BitvectorCheck(b []byte, n uint64) error {
 }
 
 func BitvectorCheckByteLen(byteLen uint64, bitLength uint64) error {
-	if expected := (bitLength + 7) >> 3; byteLen != expected {
+	// rounded up, without overflow for bit lengths close to 2**64
+	if expected := (bitLength >> 3) + (((bitLength & 7) + 7) >> 3); byteLen != expected {
 		return fmt.Errorf("bitvector of %d bytes has not expected length in bytes %d", byteLen, expected)
 	}
 	return nil
diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index 370abde..d38b3ab 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -32,7 +32,8 @@ func NewSSZBitlist(typ reflect.Type) (*SSZBitlist, error) {
 	if err != nil {
 		return nil, err
 	}
-	byteLimit := (bitLimit + 7) >> 3
+	// rounded up, without overflow for limits close to 2**64
+	byteLimit := (bitLimit >> 3) + (((bitLimit & 7) + 7) >> 3)
 	res := &SSZBitlist{
 		bitLimit:  bitLimit,
 		byteLimit: byteLimit,
diff --git a/types/ssz_bitvector.go b/types/ssz_bitvector.go
index 096f8e0..5ec4d02 100644
--- a/types/ssz_bitvector.go
+++ b/types/ssz_bitvector.go
@@ -34,7 +34,7 @@ func NewSSZBitvector(typ reflect.Type) (*SSZBitvector, error) {
 	typedNil := reflect.New(ptrTyp).Elem().Interface().(bitfields.BitvectorMeta)
 	bitLen := typedNil.BitLen()
 	byteLen := uint64(typ.Len())
-	if (bitLen+7)>>3 != byteLen {
+	if (bitLen>>3)+(((bitLen&7)+7)>>3) != byteLen {
 		return nil, fmt.Errorf("bitvector type has not the expected %d bytes to cover %d bits", byteLen, bitLen)
 	}
 	res := &SSZBitvector{bitLen: bitLen, byteLen: byteLen}
-- 
2.43.0


From 6208b513e742a5e50514762dc14fb3ffb3cd0cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:59 +0000
Subject: [PATCH 13/15] fix: root of byte lists with a limit close to 2^64

---
 types/ssz_bytes.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/types/ssz_bytes.go b/types/ssz_bytes.go
index ef3427c..cc41ec1 100644
--- a/types/ssz_bytes.go
+++ b/types/ssz_bytes.go
@@ -105,7 +105,8 @@ func (v *SSZBytes) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
 	data := *(*[]byte)(unsafe.Pointer(sh))
 	dataLen := uint64(len(data))
 	leafCount := (dataLen + 31) >> 5
-	leafLimit := (v.limit + 31) >> 5
+	// rounded up, without overflow for limits close to 2**64
+	leafLimit := (v.limit >> 5) + (((v.limit & 31) + 31) >> 5)
 	leaf := func(i uint64) []byte {
 		s := i << 5
 		e := (i + 1) << 5
-- 
2.43.0


From 75fbdb340f60c8f982dd164aa64ba1f8f2772bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:59 +0000
Subject: [PATCH 14/15] fix: MaxLen and FuzzMaxLen do not wrap around when the
 bound exceeds 64 bits

---
 types/limit.go         | 16 ++++++++++++++++
 types/ssz_bytes.go     |  2 +-
 types/ssz_container.go |  6 +++---
 types/ssz_list.go      |  6 +++---
 types/ssz_vector.go    |  6 +++---
 5 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/types/limit.go b/types/limit.go
index 4d02c8c..13eedb1 100644
--- a/types/limit.go
+++ b/types/limit.go
@@ -8,6 +8,22 @@ import (
 
 var listType = reflect.TypeOf((*lists.List)(nil)).Elem()
 
+// Adds two length bounds. The largest possible length if the sum does not fit in 64 bits.
+func addBounds(a uint64, b uint64) uint64 {
+	if a > ^uint64(0)-b {
+		return ^uint64(0)
+	}
+	return a + b
+}
+
+// Multiplies two length bounds. The largest possible length if the product does not fit in 64 bits.
+func mulBounds(a uint64, b uint64) uint64 {
+	if b != 0 && a > ^uint64(0)/b {
+		return ^uint64(0)
+	}
+	return a * b
+}
+
 func ReadListLimit(typ reflect.Type) (uint64, error) {
 	ptrTyp := reflect.PtrTo(typ)
 	if !ptrTyp.Implements(listType) {
diff --git a/types/ssz_bytes.go b/types/ssz_bytes.go
index cc41ec1..27855c0 100644
--- a/types/ssz_bytes.go
+++ b/types/ssz_bytes.go
@@ -35,7 +35,7 @@ func (v *SSZBytes) FuzzMinLen() uint64 {
 }
 
 func (v *SSZBytes) FuzzMaxLen() uint64 {
-	return 8 + v.limit
+	return addBounds(8, v.limit)
 }
 
 func (v *SSZBytes) MinLen() uint64 {
diff --git a/types/ssz_container.go b/types/ssz_container.go
index 1abafdc..985d05b 100644
--- a/types/ssz_container.go
+++ b/types/ssz_container.go
@@ -125,15 +125,15 @@ func NewSSZContainer(factory SSZFactoryFn, typ reflect.Type) (*SSZContainer, err
 			}
 			res.fixedLen += fixed
 			res.minLen += fixed
-			res.maxLen += fixed
+			res.maxLen = addBounds(res.maxLen, fixed)
 		} else {
 			res.fixedLen += BYTES_PER_LENGTH_OFFSET
 			res.minLen += BYTES_PER_LENGTH_OFFSET + field.ssz.MinLen()
-			res.maxLen += BYTES_PER_LENGTH_OFFSET + field.ssz.MaxLen()
+			res.maxLen = addBounds(res.maxLen, addBounds(BYTES_PER_LENGTH_OFFSET, field.ssz.MaxLen()))
 			res.offsetCount++
 		}
 		res.fuzzMinLen += field.ssz.FuzzMinLen()
-		res.fuzzMaxLen += field.ssz.FuzzMaxLen()
+		res.fuzzMaxLen = addBounds(res.fuzzMaxLen, field.ssz.FuzzMaxLen())
 	}
 	res.isFixedLen = res.offsetCount == 0
 	return res, nil
diff --git a/types/ssz_list.go b/types/ssz_list.go
index d9f6fe3..21d648b 100644
--- a/types/ssz_list.go
+++ b/types/ssz_list.go
@@ -40,10 +40,10 @@ func NewSSZList(factory SSZFactoryFn, typ reflect.Type) (*SSZList, error) {
 	var fixedElemSize, byteLimit uint64
 	if elemSSZ.IsFixed() {
 		fixedElemSize = elemSSZ.FixedLen()
-		byteLimit = limit * elemSSZ.FixedLen()
+		byteLimit = mulBounds(limit, elemSSZ.FixedLen())
 	} else {
 		fixedElemSize = BYTES_PER_LENGTH_OFFSET
-		byteLimit = limit * (BYTES_PER_LENGTH_OFFSET + elemSSZ.MaxLen())
+		byteLimit = mulBounds(limit, addBounds(BYTES_PER_LENGTH_OFFSET, elemSSZ.MaxLen()))
 	}
 	res := &SSZList{
 		alloc:         ptrutil.MakeSliceAllocFn(typ),
@@ -52,7 +52,7 @@ func NewSSZList(factory SSZFactoryFn, typ reflect.Type) (*SSZList, error) {
 		fixedElemSize: fixedElemSize,
 		limit:         limit,
 		byteLimit:     byteLimit,
-		maxFuzzLen:    8 + (limit * elemSSZ.FuzzMaxLen()),
+		maxFuzzLen:    addBounds(8, mulBounds(limit, elemSSZ.FuzzMaxLen())),
 	}
 	return res, nil
 }
diff --git a/types/ssz_vector.go b/types/ssz_vector.go
index 6925624..8c06c3d 100644
--- a/types/ssz_vector.go
+++ b/types/ssz_vector.go
@@ -46,7 +46,7 @@ func NewSSZVector(factory SSZFactoryFn, typ reflect.Type) (*SSZVector, error) {
 	} else {
 		fixedElemLen = BYTES_PER_LENGTH_OFFSET
 		minElemLen = BYTES_PER_LENGTH_OFFSET + elemSSZ.MinLen()
-		maxElemLen = BYTES_PER_LENGTH_OFFSET + elemSSZ.MaxLen()
+		maxElemLen = addBounds(BYTES_PER_LENGTH_OFFSET, elemSSZ.MaxLen())
 	}
 	res := &SSZVector{
 		length:      length,
@@ -55,9 +55,9 @@ func NewSSZVector(factory SSZFactoryFn, typ reflect.Type) (*SSZVector, error) {
 		isFixedLen:  elemSSZ.IsFixed(),
 		fixedLen:    fixedElemLen * length,
 		minLen:      minElemLen * length,
-		maxLen:      maxElemLen * length,
+		maxLen:      mulBounds(maxElemLen, length),
 		fuzzMinLen:  elemSSZ.FuzzMinLen() * length,
-		fuzzMaxLen:  elemSSZ.FuzzMaxLen() * length,
+		fuzzMaxLen:  mulBounds(elemSSZ.FuzzMaxLen(), length),
 	}
 	return res, nil
 }
-- 
2.43.0


From 401c92b2570b9a2d56f1a1cfcc72c905c6eeb028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:11 +0000
Subject: [PATCH 15/15] fix: lists of basic elements with limits whose byte
 length exceeds 64 bits

---
 types/basic_series.go     |  6 ++----
 types/ssz_list_basic.go   | 28 +++++++++++++++-------------
 types/ssz_vector_basic.go |  5 +++--
 3 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/types/basic_series.go b/types/basic_series.go
index 8de9e60..269dcb1 100644
--- a/types/basic_series.go
+++ b/types/basic_series.go
@@ -65,7 +65,7 @@ func LittleEndianBasicSeriesDecode(dr *DecodingReader, p unsafe.Pointer, bytesLe
 }
 
 // WARNING: for little-endian architectures only, or the elem-length has to be 1 byte
-func LittleEndianBasicSeriesHTR(h MerkleFn, p unsafe.Pointer, bytesLen uint64, bytesLimit uint64) [32]byte {
+func LittleEndianBasicSeriesHTR(h MerkleFn, p unsafe.Pointer, bytesLen uint64, leafLimit uint64) [32]byte {
 	bytesSh := ptrutil.GetSliceHeader(p, bytesLen)
 	data := *(*[]byte)(unsafe.Pointer(bytesSh))
 
@@ -81,7 +81,6 @@ func LittleEndianBasicSeriesHTR(h MerkleFn, p unsafe.Pointer, bytesLen uint64, b
 		return data[s:e]
 	}
 	leafCount := (bytesLen + 31) >> 5
-	leafLimit := (bytesLimit + 31) >> 5
 	return merkle.Merkleize(h, leafCount, leafLimit, leaf)
 }
 
@@ -101,7 +100,7 @@ func BigToLittleEndianChunk(data [32]byte, elemSize uint8) (out [32]byte) {
 }
 
 // counter-part of LittleEndianBasicSeriesHTR
-func BigEndianBasicSeriesHTR(h MerkleFn, p unsafe.Pointer, bytesLen uint64, bytesLimit uint64, elemSize uint8) [32]byte {
+func BigEndianBasicSeriesHTR(h MerkleFn, p unsafe.Pointer, bytesLen uint64, leafLimit uint64, elemSize uint8) [32]byte {
 	bytesSh := ptrutil.GetSliceHeader(p, bytesLen)
 	data := *(*[]byte)(unsafe.Pointer(bytesSh))
 
@@ -118,7 +117,6 @@ func BigEndianBasicSeriesHTR(h MerkleFn, p unsafe.Pointer, bytesLen uint64, byte
 		return d[:]
 	}
 	leafCount := (bytesLen + 31) >> 5
-	leafLimit := (bytesLimit + 31) >> 5
 	return merkle.Merkleize(h, leafCount, leafLimit, leaf)
 }
 
diff --git a/types/ssz_list_basic.go b/types/ssz_list_basic.go
index db5be02..3a66a12 100644
--- a/types/ssz_list_basic.go
+++ b/types/ssz_list_basic.go
@@ -44,7 +44,7 @@ func NewSSZBasicList(typ reflect.Type) (*SSZBasicList, error) {
 		elemKind:  elemKind,
 		elemSSZ:   elemSSZ,
 		limit:     limit,
-		byteLimit: limit * elemSSZ.FixedLen(),
+		byteLimit: mulBounds(limit, elemSSZ.FixedLen()),
 	}
 	return res, nil
 }
@@ -54,7 +54,7 @@ func (v *SSZBasicList) FuzzMinLen() uint64 {
 }
 
 func (v *SSZBasicList) FuzzMaxLen() uint64 {
-	return 8 + v.byteLimit
+	return addBounds(8, v.byteLimit)
 }
 
 func (v *SSZBasicList) MinLen() uint64 {
@@ -109,8 +109,7 @@ func (v *SSZBasicList) decodeFuzzmode(dr *DecodingReader, p unsafe.Pointer) erro
 
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
 		contentsPtr := v.alloc.MutateLenOrAllocNew(p, bytesLen/v.elemSSZ.FixedLen())
-		bytesLimit := v.limit * v.elemSSZ.FixedLen()
-		return LittleEndianBasicSeriesDecode(dr, contentsPtr, bytesLen, bytesLimit, v.elemKind == reflect.Bool)
+		return LittleEndianBasicSeriesDecode(dr, contentsPtr, bytesLen, v.byteLimit, v.elemKind == reflect.Bool)
 	} else {
 		return DecodeFixedSlice(v.elemSSZ.Decode, v.elemSSZ.FixedLen(), bytesLen, v.limit, v.alloc, uintptr(v.elemSSZ.FixedLen()), dr, p)
 	}
@@ -122,14 +121,13 @@ func (v *SSZBasicList) decode(dr *DecodingReader, p unsafe.Pointer) error {
 		return fmt.Errorf("cannot decode basic type array, input has length %d, not compatible with element length %d", bytesLen, v.elemSSZ.FixedLen())
 	}
 	// check the limit before allocating any space
-	if bytesLimit := v.limit * v.elemSSZ.FixedLen(); bytesLen > bytesLimit {
-		return fmt.Errorf("got %d bytes, expected no more than %d bytes", bytesLen, bytesLimit)
+	if bytesLen > v.byteLimit {
+		return fmt.Errorf("got %d bytes, expected no more than %d bytes", bytesLen, v.byteLimit)
 	}
 
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
 		contentsPtr := v.alloc.MutateLenOrAllocNew(p, bytesLen/v.elemSSZ.FixedLen())
-		bytesLimit := v.limit * v.elemSSZ.FixedLen()
-		return LittleEndianBasicSeriesDecode(dr, contentsPtr, bytesLen, bytesLimit, v.elemKind == reflect.Bool)
+		return LittleEndianBasicSeriesDecode(dr, contentsPtr, bytesLen, v.byteLimit, v.elemKind == reflect.Bool)
 	} else {
 		return DecodeFixedSlice(v.elemSSZ.Decode, v.elemSSZ.FixedLen(), bytesLen, v.limit, v.alloc, uintptr(v.elemSSZ.FixedLen()), dr, p)
 	}
@@ -148,19 +146,23 @@ func (v *SSZBasicList) DryCheck(dr *DecodingReader) error {
 	if bytesLen%v.elemSSZ.FixedLen() != 0 {
 		return fmt.Errorf("invalid basic type array, input has length %d, not compatible with element length %d", bytesLen, v.elemSSZ.FixedLen())
 	}
-	bytesLimit := v.limit * v.elemSSZ.FixedLen()
-	return BasicSeriesDryCheck(dr, bytesLen, bytesLimit, v.elemKind == reflect.Bool)
+	return BasicSeriesDryCheck(dr, bytesLen, v.byteLimit, v.elemKind == reflect.Bool)
 }
 
 func (v *SSZBasicList) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
 	sh := ptrutil.ReadSliceHeader(p)
 
 	bytesLen := uint64(sh.Len) * v.elemSSZ.FixedLen()
-	bytesLimit := v.limit * v.elemSSZ.FixedLen()
+	// the limit in leafs, rounded up. The limit in bytes may not fit in 64 bits.
+	elemsPerLeaf := 32 / v.elemSSZ.FixedLen()
+	leafLimit := v.limit / elemsPerLeaf
+	if v.limit%elemsPerLeaf != 0 {
+		leafLimit++
+	}
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
-		return h.MixIn(LittleEndianBasicSeriesHTR(h, sh.Data, bytesLen, bytesLimit), uint64(sh.Len))
+		return h.MixIn(LittleEndianBasicSeriesHTR(h, sh.Data, bytesLen, leafLimit), uint64(sh.Len))
 	} else {
-		return h.MixIn(BigEndianBasicSeriesHTR(h, sh.Data, bytesLen, bytesLimit, uint8(v.elemSSZ.FixedLen())), uint64(sh.Len))
+		return h.MixIn(BigEndianBasicSeriesHTR(h, sh.Data, bytesLen, leafLimit, uint8(v.elemSSZ.FixedLen())), uint64(sh.Len))
 	}
 }
 
diff --git a/types/ssz_vector_basic.go b/types/ssz_vector_basic.go
index a3f31d2..f45621e 100644
--- a/types/ssz_vector_basic.go
+++ b/types/ssz_vector_basic.go
@@ -94,10 +94,11 @@ func (v *SSZBasicVector) DryCheck(dr *DecodingReader) error {
 }
 
 func (v *SSZBasicVector) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
+	leafLimit := (v.byteLen + 31) >> 5
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
-		return LittleEndianBasicSeriesHTR(h, p, v.byteLen, v.byteLen)
+		return LittleEndianBasicSeriesHTR(h, p, v.byteLen, leafLimit)
 	} else {
-		return BigEndianBasicSeriesHTR(h, p, v.byteLen, v.byteLen, uint8(v.elemSSZ.FixedLen()))
+		return BigEndianBasicSeriesHTR(h, p, v.byteLen, leafLimit, uint8(v.elemSSZ.FixedLen()))
 	}
 }
 
-- 
2.43.0

