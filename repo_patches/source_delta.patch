From 1272c9d83937daef9888eeb1ac27814ca2d54778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 01/21] fix: ecc: replace the majority candidate when it is
 outvoted

---
 lib/ecc/ecc.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/ecc/ecc.go b/lib/ecc/ecc.go
index 40c2e8f..422f833 100644
--- a/lib/ecc/ecc.go
+++ b/lib/ecc/ecc.go
@@ -25,7 +25,11 @@ func (e *ECC) Decode(in []uint32) (uint32, error) {
 	decoded := in[0]
 	votes := 1
 	for i := 1; i < len(in); i++ {
-		if in[i] == decoded {
+		if votes == 0 {
+			// the current candidate is outvoted, take the next one
+			decoded = in[i]
+			votes = 1
+		} else if in[i] == decoded {
 			votes++
 		} else {
 			votes--
-- 
2.43.0


From 3e1c042522c0cda7c607caa74a3b9370ee2f0496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 02/21] fix: fss: mask every field element of the output, not
 only full AES blocks

---
 lib/fss/common.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/fss/common.go b/lib/fss/common.go
index 0cb95eb..56cc08b 100644
--- a/lib/fss/common.go
+++ b/lib/fss/common.go
@@ -66,7 +66,12 @@ func prf(x []byte, aesBlocks []cipher.Block, numBlocks uint, temp, out []byte) {
 }
 
 func convertBlock(f Fss, x []byte, out []uint32) {
-	// we can generate four uint32 numbers with a 16-bytes AES block
-	prf(x, f.FixedBlocks, uint(len(out)/4), f.Temp, f.OutConvertBlock)
+	// we can generate four uint32 numbers with a 16-bytes AES block, the last
+	// block is used only partially if len(out) is not a multiple of four
+	numBlocks := (len(out) + 3) / 4
+	if numBlocks > len(f.FixedBlocks) {
+		numBlocks = len(f.FixedBlocks)
+	}
+	prf(x, f.FixedBlocks, uint(numBlocks), f.Temp, f.OutConvertBlock)
 	field.BytesToElements(out, f.OutConvertBlock)
 }
-- 
2.43.0


From 49973b06f52c278af4a0a67ac787e70018c12fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 03/21] fix: field: convert bytes to elements deterministically
 and canonically

---
 lib/field/field.go | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/lib/field/field.go b/lib/field/field.go
index a26387e..d72727c 100644
--- a/lib/field/field.go
+++ b/lib/field/field.go
@@ -34,16 +34,9 @@ func toElement(in []byte) uint32 {
 	// Take the first Bytes bytes
 	//out := *(*uint32)(unsafe.Pointer(&in))
 	out := binary.BigEndian.Uint32(in[:Bytes])
-	// Make sure that toElement is not equal 2^31 - 1
-	for out == ModP {
-		var buf [Bytes]byte
-		_, err := utils.RandomPRG().Read(buf[:])
-		if err != nil {
-			panic("error in randomness")
-		}
-		out = binary.BigEndian.Uint32(buf[:])
-	}
-	return out
+	// Reduce 2^31 - 1 to zero. The result must depend on the input only, as
+	// two parties converting the same bytes have to get the same element.
+	return out % ModP
 }
 
 func RandElementWithPRG(rnd io.Reader) uint32 {
-- 
2.43.0


From 790209599987cf91a1663f816eec9119cda3992c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 04/21] fix: fss: evaluate every bit of inputs longer than 256
 bits

---
 lib/fss/server.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/fss/server.go b/lib/fss/server.go
index ea404c2..8a19d8d 100644
--- a/lib/fss/server.go
+++ b/lib/fss/server.go
@@ -41,11 +41,9 @@ func (f Fss) EvaluatePF(serverNum byte, k FssKeyEq2P, x []bool, out []uint32) {
 	tmp := make([]uint32, len(out))
 	for i := uint(0); i < f.NumBits; i++ {
 		var xBit byte = 0
-		if i != f.N {
-			// original: xBit = byte(getBit(x, (f.N - f.NumBits + i + 1), f.N))
-			if x[i] {
-				xBit = 1
-			}
+		// original: xBit = byte(getBit(x, (f.N - f.NumBits + i + 1), f.N))
+		if x[i] {
+			xBit = 1
 		}
 
 		prf(sCurr, f.FixedBlocks, 3, f.Temp, f.Out)
-- 
2.43.0


From b0d2366b430c82e29e77cc6c67c1584225b7e6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 05/21] fix: client: refuse point queries for less than two
 servers or negative indices

---
 lib/client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/client/client.go b/lib/client/client.go
index bf4c9cc..2ad31d8 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -88,7 +88,7 @@ func reconstructValuePIR(answers [][]byte, dbInfo *database.Info, state *state)
 
 // return true if the query inputs are invalid for IT schemes
 func invalidQueryInputsIT(index, numServers int) bool {
-	return index < 0 && numServers < 2
+	return index < 0 || numServers < 2
 }
 
 func invalidQueryInputsFSS(numServers int) bool {
-- 
2.43.0


From af7baf02dea2795e395e5a3555e4f824650e53b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 06/21] fix: client: return an error for the average over no
 matching entries

---
 lib/client/fss.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/client/fss.go b/lib/client/fss.go
index 1a8fa45..7e54f7c 100644
--- a/lib/client/fss.go
+++ b/lib/client/fss.go
@@ -111,6 +111,10 @@ func (c *clientFSS) reconstruct(answers [][]uint32) (uint32, error) {
 			}
 		}
 
+		if dataCount == 0 {
+			return 0, errors.New("average over an empty set")
+		}
+
 		return sumCount / dataCount, nil
 
 	} else {
-- 
2.43.0


From f2a5ba912d1cc0ef04bc069aed769b4906b318e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 07/21] fix: matrix: encode negative 128-bit noise samples as
 their residue modulo 2^128

---
 lib/matrix/matrix128.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/matrix/matrix128.go b/lib/matrix/matrix128.go
index a0f6ab2..bd59ffc 100644
--- a/lib/matrix/matrix128.go
+++ b/lib/matrix/matrix128.go
@@ -81,7 +81,7 @@ func NewGauss128(r int, c int) *Matrix128 {
 		if g >= 0 {
 			m.data[i] = uint128.From64(uint64(g))
 		} else {
-			m.data[i] = uint128.Max.Sub64(uint64(-g))
+			m.data[i] = uint128.Zero.SubWrap64(uint64(-g))
 		}
 	}
 
-- 
2.43.0


From b5f10af401517b09cdc6ea0b8129d41e52de89ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 08/21] fix: client: use a symmetric range check in the 128-bit
 LWE scheme

---
 lib/client/lwe128.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/client/lwe128.go b/lib/client/lwe128.go
index 1835bdf..d735715 100644
--- a/lib/client/lwe128.go
+++ b/lib/client/lwe128.go
@@ -96,7 +96,7 @@ func (c *LWE128) ReconstructBytes(a []byte) (uint32, error) {
 }
 
 func (c *LWE128) inRange(val uint128.Uint128) bool {
-	// max is q-1, so we add + 1 to B
-	tmp := uint128.Max.Sub(uint128.From64(uint64(c.params.B + 1)))
+	// -B modulo q
+	tmp := uint128.Zero.SubWrap64(uint64(c.params.B))
 	return val.Cmp64(uint64(c.params.B)) == -1 || val.Cmp(tmp) == 1
 }
-- 
2.43.0


From 897049a00150cd5de9abde342515675203ef189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 09/21] fix: database: do not compute digests for negative
 ranges of rows

---
 lib/database/elliptic.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/database/elliptic.go b/lib/database/elliptic.go
index ccdd2d2..9ba2630 100644
--- a/lib/database/elliptic.go
+++ b/lib/database/elliptic.go
@@ -38,7 +38,10 @@ func CreateRandomEllipticWithDigest(rnd io.Reader, dbLen int, g group.Group, reb
 	var begin, end int
 	for i := 0; i < NGoRoutines; i++ {
 		begin, end = i*rowsPerRoutine, (i+1)*rowsPerRoutine
-		// make the last routine take all the left-over (from division) rows
+		// the last routines take the left-over (from division) rows, if any
+		if begin > numRows {
+			begin = numRows
+		}
 		if end > numRows {
 			end = numRows
 		}
-- 
2.43.0


From 712c7e1e01d3d05b7cecfbb72d2bda13d8b8094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 10/21] fix: matrix: give random matrices as many entries as
 they have memory for

---
 lib/matrix/matrix.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/matrix/matrix.go b/lib/matrix/matrix.go
index 4774d85..d2a2ff0 100644
--- a/lib/matrix/matrix.go
+++ b/lib/matrix/matrix.go
@@ -3,7 +3,6 @@ package matrix
 import (
 	"encoding/binary"
 	"io"
-	"unsafe"
 
 	"github.com/si-co/vpir-code/lib/utils"
 )
@@ -108,8 +107,9 @@ func NewRandom(rnd io.Reader, r int, c int) *Matrix {
 
 	m := New(r, c)
 
-	// ugly hack for performance
-	m.data = *(*[]uint32)(unsafe.Pointer(&b))
+	for i := range m.data {
+		m.data[i] = binary.LittleEndian.Uint32(b[i*bytesMod : (i+1)*bytesMod])
+	}
 
 	return m
 }
-- 
2.43.0


From c8ff939f46aaf737a9c22d6e3846b442cdfa797b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:17 +0000
Subject: [PATCH 11/21] fix: merkle: derive the proof length from the depth of
 the tree

---
 lib/merkle/merkletree.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/merkle/merkletree.go b/lib/merkle/merkletree.go
index 2939a4b..8018de0 100644
--- a/lib/merkle/merkletree.go
+++ b/lib/merkle/merkletree.go
@@ -19,6 +19,7 @@ import (
 	"errors"
 	"hash/fnv"
 	"math"
+	"math/bits"
 )
 
 // MerkleTree is the structure for the Merkle tree.
@@ -58,8 +59,7 @@ func (t *MerkleTree) GenerateProof(data []byte) (*Proof, error) {
 		return nil, err
 	}
 
-	proofLen := int(math.Ceil(math.Log2(float64(len(t.data)))))
-	hashes := make([][]byte, proofLen)
+	hashes := make([][]byte, t.depth())
 
 	cur := 0
 	minI := uint32(math.Pow(2, float64(1))) - 1
@@ -70,11 +70,18 @@ func (t *MerkleTree) GenerateProof(data []byte) (*Proof, error) {
 	return newProof(hashes, index), nil
 }
 
+// depth returns the number of levels below the root, i.e., the number of hashes
+// in a proof. It depends on the number of leaves only: the same data can be
+// stored in more than one leaf.
+func (t *MerkleTree) depth() int {
+	return bits.Len(uint(len(t.nodes)/2)) - 1
+}
+
 // EncodedProofLength returns the byte length of the proof for a piece of data.
 // 4 bytes are for how many hashes are in the path, 8 bytes for embedding the index
 // in the tree (see proof.go for details).
 func (t *MerkleTree) EncodedProofLength() int {
-	return int(math.Ceil(math.Log2(float64(len(t.data)))))*t.hash.HashLength() + numHashesByteSize + indexByteSize
+	return t.depth()*t.hash.HashLength() + numHashesByteSize + indexByteSize
 }
 
 // New creates a new Merkle tree using the provided raw data and default hash type.
-- 
2.43.0


From dd6af874ed17d6a25d281e84b857cfd07433ca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 12/21] fix: database: unpad blocks without padding to nothing
 instead of panicking

---
 lib/database/pgp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/database/pgp.go b/lib/database/pgp.go
index afa975c..3932707 100644
--- a/lib/database/pgp.go
+++ b/lib/database/pgp.go
@@ -176,6 +176,10 @@ func UnPadBlock(block []byte) []byte {
 	block = bytes.TrimRightFunc(block, func(b rune) bool {
 		return b == 0
 	})
+	// nothing to remove, the block was not padded
+	if len(block) == 0 {
+		return block
+	}
 	// remove 0x80 preceding zeros
 	return block[:len(block)-1]
 }
-- 
2.43.0


From d4e9c84377d07b320fd7398614d0c06cbdf39d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 13/21] fix: merkle: return nil when decoding malformed proofs
 instead of panicking

---
 lib/merkle/proof.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/merkle/proof.go b/lib/merkle/proof.go
index 49159ad..494529e 100644
--- a/lib/merkle/proof.go
+++ b/lib/merkle/proof.go
@@ -77,12 +77,21 @@ func generateProofHash(data []byte, proof *Proof, hashType HashType) []byte {
 	return proofHash
 }
 
+// DecodeProof decodes a proof encoded with EncodeProof. It returns nil if p is
+// not the encoding of a proof.
 func DecodeProof(p []byte) *Proof {
+	if len(p) < numHashesByteSize+indexByteSize {
+		return nil
+	}
+
 	// number of hashes
 	numHashes := binary.LittleEndian.Uint32(p[:numHashesByteSize])
 
 	// hashes
 	hashLength := uint32(32) // blake3
+	if uint64(len(p)) != numHashesByteSize+uint64(numHashes)*uint64(hashLength)+indexByteSize {
+		return nil
+	}
 	hashes := make([][]byte, numHashes)
 	for i := uint32(0); i < numHashes; i++ {
 		hashes[i] = p[4+hashLength*i : 4+hashLength*(i+1)]
-- 
2.43.0


From 704934e4d8c5d7e9e9da7ad7d2d628c64efeae6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 14/21] fix: client: accept Merkle proofs only for the
 requested position

---
 lib/client/client.go     | 8 ++++++++
 lib/database/merkle.go   | 8 +++++---
 lib/merkle/merkletree.go | 9 +++++++++
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/lib/client/client.go b/lib/client/client.go
index 2ad31d8..1c978cc 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -56,11 +56,19 @@ func reconstructPIR(answers [][]byte, dbInfo *database.Info, state *state) ([]by
 			return block, err
 		}
 		block = database.UnPadBlock(block)
+		if len(block) < dbInfo.ProofLen {
+			return nil, errors.New("REJECT!")
+		}
 		data := block[:len(block)-dbInfo.ProofLen]
 
 		// check Merkle proof
 		encodedProof := block[len(block)-dbInfo.ProofLen:]
 		proof := merkle.DecodeProof(encodedProof)
+		// the proof must be well-formed and for the requested position
+		index := state.ix*dbInfo.NumColumns + state.iy
+		if proof == nil || uint64(proof.Index) != uint64(index) {
+			return nil, errors.New("REJECT!")
+		}
 		verified, err := merkle.VerifyProof(data, proof, dbInfo.Root)
 		if err != nil {
 			log.Fatalf("impossible to verify proof: %v", err)
diff --git a/lib/database/merkle.go b/lib/database/merkle.go
index 6ff9493..458c906 100644
--- a/lib/database/merkle.go
+++ b/lib/database/merkle.go
@@ -78,7 +78,7 @@ func makeMerkleEntries(blocks [][]byte, tree *merkle.MerkleTree, nRows, nColumns
 		}
 		replyTo := make(chan []byte, 1)
 		replies[i] = replyTo
-		generateMerkleProofs(blocks[begin:end], tree, blockLen, replyTo)
+		generateMerkleProofs(blocks[begin:end], begin, tree, blockLen, replyTo)
 	}
 
 	for j, reply := range replies {
@@ -90,10 +90,12 @@ func makeMerkleEntries(blocks [][]byte, tree *merkle.MerkleTree, nRows, nColumns
 	return output
 }
 
-func generateMerkleProofs(data [][]byte, t *merkle.MerkleTree, blockLen int, reply chan<- []byte) {
+// generateMerkleProofs appends to every block the proof for its own position,
+// begin is the position of the first block
+func generateMerkleProofs(data [][]byte, begin int, t *merkle.MerkleTree, blockLen int, reply chan<- []byte) {
 	result := make([]byte, 0, blockLen*len(data))
 	for b := 0; b < len(data); b++ {
-		p, err := t.GenerateProof(data[b])
+		p, err := t.GenerateProofAt(uint32(begin + b))
 		if err != nil {
 			log.Fatalf("error while generating proof for block %v: %v", b, err)
 		}
diff --git a/lib/merkle/merkletree.go b/lib/merkle/merkletree.go
index 8018de0..c2903c7 100644
--- a/lib/merkle/merkletree.go
+++ b/lib/merkle/merkletree.go
@@ -58,6 +58,15 @@ func (t *MerkleTree) GenerateProof(data []byte) (*Proof, error) {
 	if err != nil {
 		return nil, err
 	}
+	return t.GenerateProofAt(index)
+}
+
+// GenerateProofAt generates the proof for the piece of data at the given
+// position. This also works if the same data is stored at other positions.
+func (t *MerkleTree) GenerateProofAt(index uint32) (*Proof, error) {
+	if uint64(index) >= uint64(len(t.nodes)/2) {
+		return nil, errors.New("index out of range")
+	}
 
 	hashes := make([][]byte, t.depth())
 
-- 
2.43.0


From ac27d8e84c5c47c20abb01f93a1befb00895a85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 15/21] fix: database: encode the identity element with the
 declared element size

---
 lib/client/dh.go         |  3 +--
 lib/database/elliptic.go | 42 ++++++++++++++++++++++++++++++++++------
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/lib/client/dh.go b/lib/client/dh.go
index 07983bf..610db77 100644
--- a/lib/client/dh.go
+++ b/lib/client/dh.go
@@ -82,8 +82,7 @@ func (c *DH) ReconstructBytes(a []byte) (interface{}, error) {
 	var res byte
 	for i := 0; i < c.dbInfo.NumRows; i++ {
 		// get the row digest and raise it to a power r
-		d := g.NewElement()
-		err = d.UnmarshalBinary(c.dbInfo.SubDigests[i*digSize : (i+1)*digSize])
+		d, err := database.UnmarshalGroupElement(c.dbInfo.SubDigests[i*digSize:(i+1)*digSize], g)
 		if err != nil {
 			return nil, err
 		}
diff --git a/lib/database/elliptic.go b/lib/database/elliptic.go
index 9ba2630..5b698d0 100644
--- a/lib/database/elliptic.go
+++ b/lib/database/elliptic.go
@@ -76,7 +76,8 @@ func CreateRandomEllipticWithDigest(rnd io.Reader, dbLen int, g group.Group, reb
 }
 
 func computeDigests(begin, end int, data []byte, rowLen int, g group.Group, h crypto.Hash, replyTo chan<- []byte) {
-	digs := make([]byte, 0, (end-begin)*h.Size())
+	elementSize := getGroupElementSize(g)
+	digs := make([]byte, 0, (end-begin)*elementSize)
 	for i := begin; i < end; i++ {
 		d := g.Identity()
 		for j := 0; j < rowLen; j++ {
@@ -84,7 +85,7 @@ func computeDigests(begin, end int, data []byte, rowLen int, g group.Group, h cr
 				d.Add(d, HashIndexToGroup(uint64(j), g))
 			}
 		}
-		tmp, err := d.MarshalBinaryCompress()
+		tmp, err := marshalGroupElement(d, elementSize)
 		if err != nil {
 			log.Fatal(err)
 		}
@@ -108,11 +109,42 @@ func CommitScalarToIndex(x group.Scalar, j uint64, g group.Group) group.Element
 	return g.NewElement().Mul(H, x)
 }
 
+// Marshal a group element to marshalledLen bytes. The encoding of the identity
+// can be shorter than the one of the other elements, it is filled with zeros.
+func marshalGroupElement(el group.Element, marshalledLen int) ([]byte, error) {
+	encoded, err := el.MarshalBinaryCompress()
+	if err != nil {
+		return nil, err
+	}
+	for len(encoded) < marshalledLen {
+		encoded = append(encoded, 0)
+	}
+	return encoded, nil
+}
+
+// Unmarshal a group element encoded by marshalGroupElement
+func UnmarshalGroupElement(b []byte, g group.Group) (group.Element, error) {
+	identity := true
+	for i := range b {
+		if b[i] != 0 {
+			identity = false
+		}
+	}
+	if identity {
+		return g.Identity(), nil
+	}
+	elem := g.NewElement()
+	if err := elem.UnmarshalBinary(b); err != nil {
+		return nil, err
+	}
+	return elem, nil
+}
+
 // Marshal a slice of group elements
 func MarshalGroupElements(q []group.Element, marshalledLen int) ([]byte, error) {
 	encoded := make([]byte, 0, marshalledLen*len(q))
 	for _, el := range q {
-		tmp, err := el.MarshalBinaryCompress()
+		tmp, err := marshalGroupElement(el, marshalledLen)
 		if err != nil {
 			return nil, err
 		}
@@ -123,11 +155,9 @@ func MarshalGroupElements(q []group.Element, marshalledLen int) ([]byte, error)
 
 // Unmarshal a slice of group elements
 func UnmarshalGroupElements(q []byte, g group.Group, elemSize int) ([]group.Element, error) {
-	var err error
 	decoded := make([]group.Element, 0, len(q)/elemSize)
 	for i := 0; i < len(q); i += elemSize {
-		elem := g.NewElement()
-		err = elem.UnmarshalBinary(q[i : i+elemSize])
+		elem, err := UnmarshalGroupElement(q[i:i+elemSize], g)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 7594fe182de8059cc10c500defd7262269a0d50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 16/21] fix: client: reject group answers of the wrong length

---
 lib/client/dh.go         | 3 +++
 lib/database/elliptic.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/lib/client/dh.go b/lib/client/dh.go
index 610db77..75f7b44 100644
--- a/lib/client/dh.go
+++ b/lib/client/dh.go
@@ -78,6 +78,9 @@ func (c *DH) ReconstructBytes(a []byte) (interface{}, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(answer) != c.dbInfo.NumRows {
+		return nil, errors.New("reject")
+	}
 	m := g.Identity()
 	var res byte
 	for i := 0; i < c.dbInfo.NumRows; i++ {
diff --git a/lib/database/elliptic.go b/lib/database/elliptic.go
index 5b698d0..478640c 100644
--- a/lib/database/elliptic.go
+++ b/lib/database/elliptic.go
@@ -3,6 +3,7 @@ package database
 import (
 	"crypto"
 	"encoding/binary"
+	"errors"
 	"io"
 	"log"
 	"math"
@@ -155,6 +156,9 @@ func MarshalGroupElements(q []group.Element, marshalledLen int) ([]byte, error)
 
 // Unmarshal a slice of group elements
 func UnmarshalGroupElements(q []byte, g group.Group, elemSize int) ([]group.Element, error) {
+	if len(q)%elemSize != 0 {
+		return nil, errors.New("invalid length of encoded group elements")
+	}
 	decoded := make([]group.Element, 0, len(q)/elemSize)
 	for i := 0; i < len(q); i += elemSize {
 		elem, err := UnmarshalGroupElement(q[i:i+elemSize], g)
-- 
2.43.0


From e29ec80ec46ce9d72c73b61a69bd7f718c075347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 17/21] fix: grpc server: answer DPF queries when there are two
 servers

---
 cmd/grpc/server/main.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/grpc/server/main.go b/cmd/grpc/server/main.go
index 904ca46..6b50ff5 100644
--- a/cmd/grpc/server/main.go
+++ b/cmd/grpc/server/main.go
@@ -139,10 +139,15 @@ func main() {
 	var s server.Server
 	switch *scheme {
 	case "pointPIR", "pointVPIR":
+		// clients send DPF keys if there are exactly two servers
+		newPIR := server.NewPIR
+		if len(config.Addresses) == 2 {
+			newPIR = server.NewPIRTwo
+		}
 		if *cores != -1 && *experiment {
-			s = server.NewPIR(dbBytes, *cores)
+			s = newPIR(dbBytes, *cores)
 		} else {
-			s = server.NewPIR(dbBytes)
+			s = newPIR(dbBytes)
 		}
 	case "complexPIR":
 		if *cores != -1 && *experiment {
-- 
2.43.0


From 7c4ff3516d9f3b32d3168617d051adf80870fe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 18/21] fix: grpc clients: send the j-th query to the j-th
 server

---
 cmd/grpc/client/main.go            | 8 ++++----
 simulations/multi/client/client.go | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/cmd/grpc/client/main.go b/cmd/grpc/client/main.go
index 883a931..447807e 100644
--- a/cmd/grpc/client/main.go
+++ b/cmd/grpc/client/main.go
@@ -397,14 +397,14 @@ func (lc *localClient) runQueries(queries [][]byte) [][]byte {
 
 	wg := sync.WaitGroup{}
 	resCh := make(chan []byte, len(lc.connections))
-	j := 0
-	for _, conn := range lc.connections {
+	// the j-th query is for the j-th server, the order matters as the
+	// predicate queries of the two servers are not interchangeable
+	for j, addr := range lc.config.Addresses[:len(lc.connections)] {
 		wg.Add(1)
 		go func(j int, conn *grpc.ClientConn) {
 			resCh <- queryServer(subCtx, conn, lc.callOptions, queries[j])
 			wg.Done()
-		}(j, conn)
-		j++
+		}(j, lc.connections[addr])
 	}
 	wg.Wait()
 	close(resCh)
diff --git a/simulations/multi/client/client.go b/simulations/multi/client/client.go
index 2e9889d..726da17 100644
--- a/simulations/multi/client/client.go
+++ b/simulations/multi/client/client.go
@@ -369,14 +369,14 @@ func (lc *localClient) runQueries(queries [][]byte) [][]byte {
 
 	wg := sync.WaitGroup{}
 	resCh := make(chan []byte, len(lc.connections))
-	j := 0
-	for _, conn := range lc.connections {
+	// the j-th query is for the j-th server, the order matters as the
+	// predicate queries of the two servers are not interchangeable
+	for j, addr := range lc.config.Addresses[:len(lc.connections)] {
 		wg.Add(1)
 		go func(j int, conn *grpc.ClientConn) {
 			resCh <- queryServer(subCtx, conn, lc.callOptions, queries[j])
 			wg.Done()
-		}(j, conn)
-		j++
+		}(j, lc.connections[addr])
 	}
 	wg.Wait()
 	close(resCh)
-- 
2.43.0


From 7534535463f5976683ee15c8f3507c20fd9dd48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:56 +0000
Subject: [PATCH 19/21] fix: grpc clients: refuse servers announcing different
 roots, proof lengths or schemes

---
 cmd/grpc/client/main.go            | 6 +++++-
 cmd/grpc/client/manager/mod.go     | 6 +++++-
 simulations/multi/client/client.go | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/cmd/grpc/client/main.go b/cmd/grpc/client/main.go
index 447807e..eeba57a 100644
--- a/cmd/grpc/client/main.go
+++ b/cmd/grpc/client/main.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"context"
 	"encoding/binary"
 	"errors"
@@ -449,7 +450,10 @@ func equalDBInfo(info []*database.Info) bool {
 	for i := range info {
 		if info[0].NumRows != info[i].NumRows ||
 			info[0].NumColumns != info[i].NumColumns ||
-			info[0].BlockSize != info[i].BlockSize {
+			info[0].BlockSize != info[i].BlockSize ||
+			info[0].PIRType != info[i].PIRType ||
+			info[0].ProofLen != info[i].ProofLen ||
+			!bytes.Equal(info[0].Root, info[i].Root) {
 			//info[0].IDLength != info[i].IDLength ||
 			//info[0].KeyLength != info[i].KeyLength {
 			return false
diff --git a/cmd/grpc/client/manager/mod.go b/cmd/grpc/client/manager/mod.go
index 3b3b09c..92b68fd 100644
--- a/cmd/grpc/client/manager/mod.go
+++ b/cmd/grpc/client/manager/mod.go
@@ -1,6 +1,7 @@
 package manager
 
 import (
+	"bytes"
 	"context"
 	"encoding/binary"
 	"fmt"
@@ -172,7 +173,10 @@ func (a *Actor) GetDBInfos() ([]database.Info, error) {
 	for i := range dbInfo {
 		if dbInfo[0].NumRows != dbInfo[i].NumRows ||
 			dbInfo[0].NumColumns != dbInfo[i].NumColumns ||
-			dbInfo[0].BlockSize != dbInfo[i].BlockSize {
+			dbInfo[0].BlockSize != dbInfo[i].BlockSize ||
+			dbInfo[0].PIRType != dbInfo[i].PIRType ||
+			dbInfo[0].ProofLen != dbInfo[i].ProofLen ||
+			!bytes.Equal(dbInfo[0].Root, dbInfo[i].Root) {
 
 			return nil, xerrors.Errorf("db not equal: %v", dbInfo)
 		}
diff --git a/simulations/multi/client/client.go b/simulations/multi/client/client.go
index 726da17..0a5563c 100644
--- a/simulations/multi/client/client.go
+++ b/simulations/multi/client/client.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"context"
 	"encoding/binary"
 	"flag"
@@ -335,7 +336,10 @@ func equalDBInfo(info []*database.Info) bool {
 	for i := range info {
 		if info[0].NumRows != info[i].NumRows ||
 			info[0].NumColumns != info[i].NumColumns ||
-			info[0].BlockSize != info[i].BlockSize {
+			info[0].BlockSize != info[i].BlockSize ||
+			info[0].PIRType != info[i].PIRType ||
+			info[0].ProofLen != info[i].ProofLen ||
+			!bytes.Equal(info[0].Root, info[i].Root) {
 			return false
 		}
 	}
-- 
2.43.0


From 2211e29d0fddba27b4c0b932a90a7edc4c3767e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 20/21] fix: zero bytes database declares the lengths of its
 blocks

---
 lib/database/bytes.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/database/bytes.go b/lib/database/bytes.go
index e3ef760..cb0e904 100644
--- a/lib/database/bytes.go
+++ b/lib/database/bytes.go
@@ -16,12 +16,18 @@ func CreateZeroBytes(numRows, numColumns, blockLen int) *Bytes {
 	// sample random entries
 	entries := make([]byte, numRows*numColumns*blockLen)
 
+	blockLens := make([]int, numRows*numColumns)
+	for i := range blockLens {
+		blockLens[i] = blockLen
+	}
+
 	return &Bytes{Entries: entries,
 		Info: Info{
-			NumColumns: numColumns,
-			NumRows:    numRows,
-			BlockSize:  blockLen,
-			Merkle:     &Merkle{ProofLen: 0}, // only for tests compatibility
+			NumColumns:   numColumns,
+			NumRows:      numRows,
+			BlockSize:    blockLen,
+			BlockLengths: blockLens,
+			Merkle:       &Merkle{ProofLen: 0}, // only for tests compatibility
 		},
 	}
 }
-- 
2.43.0


From e9d4bf12d5486a4b5da1367004b53e0394a21715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 21/21] fix: random bytes database holds exactly the bytes of
 its blocks

---
 lib/database/bytes.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/database/bytes.go b/lib/database/bytes.go
index cb0e904..53ccd82 100644
--- a/lib/database/bytes.go
+++ b/lib/database/bytes.go
@@ -53,13 +53,14 @@ func InitBytes(numRows, numColumns, blockLen int) *Bytes {
 // CreateRandomBytes return a random bytes database.
 // blockLen must be the number of bytes in a block, as a byte is the element
 func CreateRandomBytes(rnd io.Reader, dbLen, numRows, blockLen int) *Bytes {
-	// sample random entries
-	entries := make([]byte, dbLen/8)
+	numColumns := dbLen / (8 * numRows * blockLen)
+
+	// sample random entries, exactly as many as the blocks hold
+	entries := make([]byte, numRows*numColumns*blockLen)
 	if _, err := rnd.Read(entries); err != nil {
 		log.Fatal(err)
 	}
 
-	numColumns := dbLen / (8 * numRows * blockLen)
 	blockLens := make([]int, numRows*numColumns)
 	for i := 0; i < numRows*numColumns; i++ {
 		blockLens[i] = blockLen
-- 
2.43.0

