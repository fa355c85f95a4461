package verifreplay

import (
	"bytes"
	"encoding/binary"
	"math/big"
	"testing"
	"time"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/merkle"
	"github.com/si-co/vpir-code/lib/utils"
	vc "github.com/si-co/vpir-code/verifreplay_common"
	"golang.org/x/crypto/blake2b"
)

func square(n int) int {
	s := 0
	for s*s < n {
		s++
	}
	return s
}

// shape of a bytes database with constant block lengths
func shape(d *vc.Drv, what string, db *database.Bytes, rows, cols, size, length int) bool {
	if !d.Check(db.NumRows == rows && db.NumColumns == cols && db.BlockSize == size,
		"%s: declared %dx%d blocks of %d, want %dx%d of %d", what, db.NumRows, db.NumColumns, db.BlockSize, rows, cols, size) {
		return false
	}
	if !d.Check(len(db.BlockLengths) == rows*cols, "%s: %d block lengths for %d blocks", what, len(db.BlockLengths), rows*cols) {
		return false
	}
	sum := 0
	for i, l := range db.BlockLengths {
		if !d.Check(l == length, "%s: length %d declared for block %d, want %d", what, l, i, length) {
			return false
		}
		sum += l
	}
	return d.Check(len(db.Entries) == sum, "%s: %d bytes of content, the block lengths sum to %d", what, len(db.Entries), sum)
}

func TestVerif(t *testing.T) {
	d := vc.New("database constructors over random shapes and tapes: declared shape, lengths, contents, digests, proofs", 40*time.Second)
	defer d.Done()

	for n := 0; n <= 5000 && d.More(); n++ {
		d.Input("layout of %d blocks", n)
		r, c := database.CalculateNumRowsAndColumns(n, true)
		s := square(n)
		d.Check(r == s && c == s, "the square layout of %d blocks is %dx%d, want %dx%d", n, r, c, s, s)
		r, c = database.CalculateNumRowsAndColumns(n, false)
		d.Check(r == 1 && c == n, "the vector layout of %d blocks is %dx%d", n, r, c)
		m := n
		utils.IncreaseToNextSquare(&m)
		d.Check(m == s*s, "the next square of %d is given as %d", n, m)
	}
	for i := 0; i < 3000 && d.More(); i++ {
		k := 1 + d.R.Intn(1<<20)
		n := k*k + d.Pick(-1, 0, 1)
		d.Input("layout of %d blocks", n)
		s := k
		if n > k*k {
			s = k + 1
		}
		m := n
		utils.IncreaseToNextSquare(&m)
		d.Check(m == s*s, "the next square of %d is given as %d", n, m)
		r, c := database.CalculateNumRowsAndColumns(n, true)
		d.Check(r == s && c == s, "the square layout of %d blocks is %dx%d, want %dx%d", n, r, c, s, s)
	}

	for it := 0; d.Rounds(it, 150, 3000); it++ {
		rows, cols, bl := d.Pick(1, 1, 2, 3, 5, 8, 17), d.Pick(1, 2, 3, 4, 7, 8, 9, 16, 33), d.Pick(1, 2, 3, 7, 16, 31, 64)
		d.Input("bytes databases of %dx%d blocks of %d", rows, cols, bl)
		d.Guard("bytes databases", func() {
			z := database.CreateZeroBytes(rows, cols, bl)
			if shape(d, "CreateZeroBytes", z, rows, cols, bl, bl) {
				d.Check(bytes.Equal(z.Entries, make([]byte, rows*cols*bl)), "the zero database has other contents")
			}
			shape(d, "InitBytes", database.InitBytes(rows, cols, bl), rows, cols, bl, 0)

			// lengths that are no multiple of a row as well
			extra := d.R.Intn(8 * rows * bl)
			if d.R.Intn(2) == 0 {
				extra = 0
			}
			tape := d.Bytes(rows*cols*bl + 64)
			db := database.CreateRandomBytes(&vc.Fixed{B: tape}, 8*rows*cols*bl+extra, rows, bl)
			if shape(d, "CreateRandomBytes", db, rows, cols, bl, bl) {
				d.Check(bytes.Equal(db.Entries, tape[:rows*cols*bl]), "the random bytes database of %dx%d blocks of %d differs from the bytes read", rows, cols, bl)
			}
		})

		// bits databases
		d.Guard("CreateRandomBitsDB", func() {
			n := 8 * field.Bytes * rows * cols * bl
			wc := cols
			if d.R.Intn(8) == 0 {
				n, wc = d.R.Intn(8*field.Bytes*rows*bl), 1
			}
			tp := vc.NewTape(d.R.Int63())
			db, err := database.CreateRandomBitsDB(tp, n, rows, bl)
			if !d.Check(err == nil, "CreateRandomBitsDB: %v", err) {
				return
			}
			if !d.Check(db.NumRows == rows && db.NumColumns == wc && db.BlockSize == bl && len(db.Entries) == rows*wc*bl && len(db.BlockLengths) == rows*wc,
				"CreateRandomBitsDB(%d, %d, %d): %dx%d blocks of %d, %d entries, %d lengths", n, rows, bl, db.NumRows, db.NumColumns, db.BlockSize, len(db.Entries), len(db.BlockLengths)) {
				return
			}
			for i, l := range db.BlockLengths {
				d.Check(l == bl, "CreateRandomBitsDB: length %d of block %d, want %d", l, i, bl)
			}
			want := make([]uint32, len(db.Entries))
			field.BytesToElements(want, tp.Out)
			for i := range want {
				if !d.Check(db.Entries[i] == want[i] && want[i] < field.ModP, "entry %d of the bits database is %d, the bytes read give %d", i, db.Entries[i], want[i]) {
					return
				}
			}
		})

		// Merkle database
		mc := cols
		if it%4 != 0 && mc > 9 {
			mc = 9
		}
		d.Input("Merkle database of %dx%d blocks of %d", rows, mc, bl)
		d.Guard("CreateRandomMerkle", func() {
			surplus := 0
			if rows > 1 && d.R.Intn(4) == 0 {
				surplus = d.R.Intn(rows) // blocks that fill no column
			}
			nb := rows*mc + surplus
			tape := d.Bytes(nb*bl + 64)
			db := database.CreateRandomMerkle(&vc.Fixed{B: tape}, 8*nb*bl+d.R.Intn(8), rows, bl)
			if db.Merkle == nil {
				d.Fail("no Merkle information")
				return
			}
			pl := db.ProofLen
			w := bl + pl + 1
			if !shape(d, "CreateRandomMerkle", db, rows, mc, w, w) {
				return
			}
			d.Check(db.PIRType == "merkle", "the Merkle database is of type %q", db.PIRType)
			blocks := make([][]byte, nb)
			for i := range blocks {
				blocks[i] = append([]byte{}, tape[i*bl:(i+1)*bl]...)
			}
			tree, err := merkle.New(blocks)
			if err != nil {
				t.Fatal(err)
			}
			d.Check(bytes.Equal(tree.Root(), db.Root), "the published root of %d blocks of %d is not the root of its blocks", nb, bl)
			for i := 0; i < rows*mc; i++ {
				e := db.Entries[i*w : (i+1)*w]
				if !d.Check(bytes.Equal(e[:bl], blocks[i]), "block %d of %d of the Merkle database is %x, read %x", i, nb, e[:bl], blocks[i]) {
					return
				}
				if !d.Check(e[w-1] == 0x80, "block %d of %d of the Merkle database ends in %x", i, nb, e[w-1]) {
					return
				}
				p := merkle.DecodeProof(e[bl : w-1])
				if !d.Check(p != nil && int(p.Index) == i, "block %d of %d of the Merkle database carries a proof for another position (%v)", i, nb, p) {
					return
				}
				ok, err := merkle.VerifyProof(blocks[i], p, db.Root)
				if !d.Check(ok && err == nil, "the proof of block %d of %d of the Merkle database does not verify", i, nb) {
					return
				}
			}
		})

		if it%3 == 0 {
			elliptic(d)
		}
		if it%5 == 0 {
			lwe(d, it)
		}
		if it%10 == 0 {
			lwe128(d, it)
		}
	}

	d.Guard("CreateRandomKeysDB", func() {
		for _, n := range []int{1, 2, 17, 100} {
			d.Input("keys database of %d", n)
			db, err := database.CreateRandomKeysDB(vc.NewTape(1), n)
			d.Check(err == nil && db.NumColumns == n && len(db.KeysInfo) == n, "a keys database of %d keys declares %d columns (%v)", n, db.NumColumns, err)
		}
	})
}

func lweShape(d *vc.Drv, it int) (rows, cols, n int) {
	rows, cols = d.Pick(1, 2, 3, 4, 5, 9), d.Pick(1, 2, 3, 4, 7, 8, 9, 13)
	if it%2 == 0 {
		n = 1 + d.R.Intn(60)
		rows = square(n)
		cols = rows
	}
	return
}

func bits(d *vc.Drv, what string, m *matrix.MatrixBytes, rows, cols int, tape []byte) bool {
	if !d.Check(m.Len() == rows*cols, "%s: a matrix of %d entries for %dx%d", what, m.Len(), rows, cols) {
		return false
	}
	for i := 0; i < rows*cols; i++ {
		if !d.Check(m.Get(i/cols, i%cols) == tape[i/8]>>uint(i%8)&1, "%s %dx%d: entry %d is %d, the byte read for it is %x", what, rows, cols, i, m.Get(i/cols, i%cols), tape[i/8]) {
			return false
		}
	}
	return true
}

func lwe(d *vc.Drv, it int) {
	rows, cols, n := lweShape(d, it)
	tape := d.Bytes(rows*cols/8 + 64)
	d.Input("LWE database %dx%d (%d) %x", rows, cols, n, tape[:8])
	d.Guard("LWE database", func() {
		var db *database.LWE
		if n > 0 {
			db = database.CreateRandomBinaryLWEWithLength(&vc.Fixed{B: tape}, n)
		} else {
			db = database.CreateRandomBinaryLWE(&vc.Fixed{B: tape}, rows, cols)
		}
		if !d.Check(db.NumRows == rows && db.NumColumns == cols && db.BlockSize == 1, "an LWE database declares %dx%d blocks of %d, want %dx%d", db.NumRows, db.NumColumns, db.BlockSize, rows, cols) {
			return
		}
		if !bits(d, "LWE database", db.Matrix, rows, cols, tape) {
			return
		}
		if db.Auth == nil || db.DigestLWE == nil {
			d.Fail("no LWE digest")
			return
		}
		N := utils.ParamsDefault().N
		A := matrix.NewRandom(utils.NewPRG(utils.ParamsDefault().SeedA), N, rows)
		g := db.DigestLWE
		if !d.Check(g.Rows() == N && g.Cols() == cols, "the LWE digest is %dx%d", g.Rows(), g.Cols()) {
			return
		}
		for i := 0; i < N; i++ {
			for j := 0; j < cols; j++ {
				var s uint32
				for k := 0; k < rows; k++ {
					if tape[(k*cols+j)/8]>>uint((k*cols+j)%8)&1 == 1 {
						s += A.Get(i, k)
					}
				}
				if !d.Check(g.Get(i, j) == s, "entry %d,%d of the LWE digest of a %dx%d database is %d, the matrix product is %d", i, j, rows, cols, g.Get(i, j), s) {
					return
				}
			}
		}
	})
}

func lwe128(d *vc.Drv, it int) {
	rows, cols, n := lweShape(d, it/2)
	if rows > 4 {
		rows, cols, n = 4, 4, 13
	}
	tape := d.Bytes(rows*cols/8 + 64)
	d.Input("LWE128 database %dx%d (%d) %x", rows, cols, n, tape[:8])
	d.Guard("LWE128 database", func() {
		var db *database.LWE128
		if n > 0 {
			db = database.CreateRandomBinaryLWEWithLength128(&vc.Fixed{B: tape}, n)
		} else {
			db = database.CreateRandomBinaryLWE128(&vc.Fixed{B: tape}, rows, cols)
		}
		if !d.Check(db.NumRows == rows && db.NumColumns == cols && db.BlockSize == 1, "an LWE128 database declares %dx%d blocks of %d, want %dx%d", db.NumRows, db.NumColumns, db.BlockSize, rows, cols) {
			return
		}
		if !bits(d, "LWE128 database", db.Matrix, rows, cols, tape) {
			return
		}
		if db.Auth == nil || db.DigestLWE128 == nil {
			d.Fail("no LWE128 digest")
			return
		}
		N := utils.ParamsDefault128().N
		A := matrix.NewRandom128(utils.NewPRG(utils.ParamsDefault128().SeedA), N, rows)
		g := db.DigestLWE128
		if !d.Check(g.Rows() == N && g.Cols() == cols, "the LWE128 digest is %dx%d", g.Rows(), g.Cols()) {
			return
		}
		mod := new(big.Int).Lsh(big.NewInt(1), 128)
		for i := 0; i < N; i++ {
			for j := 0; j < cols; j++ {
				s := new(big.Int)
				for k := 0; k < rows; k++ {
					if tape[(k*cols+j)/8]>>uint((k*cols+j)%8)&1 == 1 {
						s.Add(s, A.Get(i, k).Big())
					}
				}
				s.Mod(s, mod)
				if !d.Check(g.Get(i, j).Big().Cmp(s) == 0, "entry %d,%d of the LWE128 digest of a %dx%d database is %v, the matrix product is %v", i, j, rows, cols, g.Get(i, j), s) {
					return
				}
			}
		}
	})
}

func elliptic(d *vc.Drv) {
	g := group.P256
	n := d.Pick(1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 25, 30, 64, 65)
	reb := d.R.Intn(3) > 0
	if !reb && n > 17 {
		n = 17
	}
	tape := d.Bytes(512)
	if d.R.Intn(3) == 0 { // rows without a set bit
		for i := range tape {
			if d.R.Intn(6) > 0 {
				tape[i] &= 0xfe
			}
		}
	}
	d.Input("elliptic database of %d, square %v, %x", n, reb, tape[:16])
	d.Guard("elliptic database", func() {
		db := database.CreateRandomEllipticWithDigest(&vc.Fixed{B: tape}, n, g, reb)
		rows, cols := 1, n
		if reb {
			rows = square(n)
			cols = rows
		}
		if !d.Check(db.NumRows == rows && db.NumColumns == cols && db.BlockSize == 1 && len(db.Entries) == rows*cols,
			"an elliptic database of %d (square %v) declares %dx%d blocks of %d and has %d entries", n, reb, db.NumRows, db.NumColumns, db.BlockSize, len(db.Entries)) {
			return
		}
		for i := range db.Entries {
			if !d.Check(db.Entries[i] == tape[i]&1, "entry %d of the elliptic database is %d, the byte read is %x", i, db.Entries[i], tape[i]) {
				return
			}
		}
		es := db.ElementSize
		if !d.Check(len(db.SubDigests) == rows*es, "%d bytes of row digests for %d rows of elements of %d bytes", len(db.SubDigests), rows, es) {
			return
		}
		var all []byte
		for i := 0; i < rows; i++ {
			e := g.Identity()
			for j := 0; j < cols; j++ {
				if tape[i*cols+j]&1 == 1 {
					ib := make([]byte, 8)
					binary.LittleEndian.PutUint64(ib, uint64(j))
					e.Add(e, g.HashToElement(ib, nil))
				}
			}
			b, _ := e.MarshalBinaryCompress()
			for len(b) < es {
				b = append(b, 0)
			}
			d.Check(bytes.Equal(db.SubDigests[i*es:(i+1)*es], b), "the digest of row %d of a %dx%d elliptic database is not the product of its set columns", i, rows, cols)
			all = append(all, b...)
		}
		h := blake2b.Sum256(all)
		d.Check(bytes.Equal(db.Digest, h[:]), "the digest of a %dx%d elliptic database is not the hash of its row digests", rows, cols)
	})
}
