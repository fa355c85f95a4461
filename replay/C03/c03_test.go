package verifreplay

import (
	"bytes"
	"encoding/binary"
	"testing"
	"time"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/merkle"
	"github.com/si-co/vpir-code/lib/server"
	vc "github.com/si-co/vpir-code/verifreplay_common"
)

// a database with a Merkle proof behind every block, with the given (possibly
// unequal) block contents
func mkdb(blocks [][]byte, rows, cols int) (*database.Bytes, [][]byte) {
	tree, err := merkle.New(blocks)
	if err != nil {
		panic(err)
	}
	var stored [][]byte
	var entries []byte
	lens := make([]int, len(blocks))
	bs := 0
	for i := range blocks {
		p, err := tree.GenerateProofAt(uint32(i))
		if err != nil {
			panic(err)
		}
		b := append(append([]byte{}, blocks[i]...), merkle.EncodeProof(p)...)
		b = append(b, 0x80)
		lens[i] = len(b)
		if len(b) > bs {
			bs = len(b)
		}
		stored = append(stored, b)
		entries = append(entries, b...)
	}
	return &database.Bytes{Entries: entries, Info: database.Info{NumRows: rows, NumColumns: cols, BlockSize: bs, BlockLengths: lens,
		PIRType: "merkle", Merkle: &database.Merkle{Root: tree.Root(), ProofLen: tree.EncodedProofLength()}}}, stored
}

func TestVerif(t *testing.T) {
	d := vc.New("honest and manipulated answers of the Merkle-authenticated scheme on random databases", 25*time.Second)
	defer d.Done()
	for it := 0; d.Rounds(it, 40, 600); it++ {
		rows, cols := d.Pick(1, 1, 2, 3, 5), d.Pick(1, 2, 3, 4, 5, 8, 9, 16, 17)
		bl := d.Pick(1, 2, 3, 8, 16, 31, 32, 33, 64)
		N := rows * cols
		var db *database.Bytes
		var stored [][]byte // with proof and padding byte
		blocks := make([][]byte, N)
		if it%3 == 0 {
			db = database.CreateRandomMerkle(vc.NewTape(d.R.Int63()), 8*bl*N, rows, bl)
			if !d.Check(db.NumRows == rows && db.NumColumns == cols && len(db.Entries) == N*db.BlockSize && db.BlockSize == bl+db.ProofLen+1, "CreateRandomMerkle(%d blocks, %d rows, %d bytes): declared %dx%d blocks of %d bytes, %d bytes", N, rows, bl, db.NumRows, db.NumColumns, db.BlockSize, len(db.Entries)) {
				break
			}
			for i := range blocks {
				b := db.Entries[i*db.BlockSize : (i+1)*db.BlockSize]
				stored = append(stored, b)
				blocks[i] = append([]byte{}, b[:bl]...)
			}
		} else {
			for i := range blocks {
				n := bl
				if it%3 == 2 {
					n = d.R.Intn(bl + 1)
				}
				blocks[i] = d.Bytes(n)
				if d.R.Intn(4) == 0 && i > 0 {
					blocks[i] = append([]byte{}, blocks[d.R.Intn(i)]...)
				}
				if n = len(blocks[i]); d.R.Intn(4) == 0 && n > 0 {
					blocks[i][n-1] = byte(d.Pick(0, 0x80))
				}
			}
			db, stored = mkdb(blocks, rows, cols)
		}
		bs := db.BlockSize
		pad := func(i int) []byte {
			b := make([]byte, bs)
			copy(b, stored[i])
			return b
		}
		n := d.Pick(2, 3, 4)
		idx := d.R.Intn(N)
		cl := client.NewPIR(vc.NewTape(d.R.Int63()), &db.Info)
		qs := cl.Query(idx, n)
		honest := make([][]byte, n)
		for k := range qs {
			if n == 2 {
				honest[k] = server.NewPIRTwo(db).Answer(qs[k])
			} else {
				honest[k] = server.NewPIR(db).Answer(qs[k])
			}
		}
		cp := func() [][]byte {
			r := make([][]byte, n)
			for k := range r {
				r[k] = append([]byte{}, honest[k]...)
			}
			return r
		}
		run := func(what string, mustReject bool, a [][]byte) {
			d.Input("%s: %dx%d blocks of %d bytes, %d servers, index %d, answers for the row %x", what, rows, cols, bl, n, idx, rowOf(a, idx/cols, bs))
			var r []byte
			var err error
			if m := vc.Panics(func() { r, err = cl.Reconstruct(a) }); m != nil {
				d.Fail("%s (index %d of %dx%d, %d servers): the client crashes: %v", what, idx, rows, cols, n, m)
				return
			}
			if err == nil && !bytes.Equal(r, blocks[idx]) {
				d.Fail("%s (index %d of %dx%d, %d servers): the client accepts %x, the committed block is %x", what, idx, rows, cols, n, r, blocks[idx])
			}
			if err == nil && mustReject {
				d.Fail("%s (index %d of %dx%d, %d servers) is accepted", what, idx, rows, cols, n)
			}
		}
		// honest
		{
			d.Input("honest: %dx%d, index %d, %d servers", rows, cols, idx, n)
			d.Guard("honest answers", func() {
				r, err := cl.Reconstruct(cp())
				d.Check(err == nil && bytes.Equal(r, blocks[idx]), "honest answers for index %d of %dx%d (%d servers) give %x, %v instead of %x", idx, rows, cols, n, r, err, blocks[idx])
			})
		}
		// make the XOR in the requested row equal to x
		forge := func(x []byte) [][]byte {
			a := cp()
			k := d.R.Intn(n)
			off := idx / cols * bs
			cur := pad(idx)
			for m := 0; m < bs; m++ {
				a[k][off+m] ^= cur[m]
				if m < len(x) {
					a[k][off+m] ^= x[m]
				}
			}
			return a
		}
		// every position of the stored block modified
		for m := 0; m < len(stored[idx]); m++ {
			if len(stored[idx]) > 80 && d.R.Intn(len(stored[idx])) > 60 && m < len(stored[idx])-12 {
				continue
			}
			x := pad(idx)
			x[m] ^= byte(1 << uint(d.R.Intn(8)))
			run("one modified byte", m < len(stored[idx])-1, forge(x))
		}
		// other positions, with their valid proofs
		for k := 0; k < 4; k++ {
			o := d.R.Intn(N)
			if o == idx {
				continue
			}
			run("the block of another position with its valid proof", true, forge(stored[o]))
			// the other block with the proof of the requested position
			x := append([]byte{}, blocks[o]...)
			x = append(x, stored[idx][len(blocks[idx]):]...)
			if len(x) <= bs {
				run("another block with the proof of this position", !bytes.Equal(blocks[o], blocks[idx]), forge(x))
			}
			// index field rewritten
			y := append([]byte{}, stored[o]...)
			binary.LittleEndian.PutUint32(y[len(y)-5:], uint32(idx))
			if !bytes.Equal(y, stored[idx]) {
				run("the block and proof of another position with a rewritten index", true, forge(y))
			}
		}
		// index beyond 32 bits / other aliases of the position
		for _, add := range []uint32{uint32(N), 1, 0x80000000, 0xffffffff} {
			y := append([]byte{}, stored[idx]...)
			binary.LittleEndian.PutUint32(y[len(y)-5:], uint32(idx)+add)
			run("a proof with another index", true, forge(y))
		}
		// other depths: the declared number of hashes
		pl := db.ProofLen
		for _, nh := range []uint32{0, 1, uint32((pl-8)/32) + 1, uint32((pl-8)/32) - 1, 0xffffffff, 0x08000000, 0x7fffffff, 255} {
			y := append([]byte{}, stored[idx]...)
			p := len(blocks[idx])
			if binary.LittleEndian.Uint32(y[p:]) == nh {
				continue
			}
			binary.LittleEndian.PutUint32(y[p:], nh)
			run("a proof that declares another number of hashes", true, forge(y))
		}
		// a block of a smaller / other database under another root
		other := make([][]byte, N)
		for i := range other {
			other[i] = d.Bytes(len(blocks[i]))
		}
		_, st2 := mkdb(other, rows, cols)
		if !bytes.Equal(other[idx], blocks[idx]) && len(st2[idx]) <= bs {
			run("the block of another database with its own proof", true, forge(st2[idx]))
		}
		// an inner node served as a block: no hashes left out
		if (pl-8)/32 >= 1 {
			y := append([]byte{}, stored[idx]...)
			run("a truncated stored block", true, forge(y[:len(y)-1-d.R.Intn(pl)-1]))
			z := append([]byte{}, stored[idx]...)
			p := len(blocks[idx])
			h := 4 + 32*d.R.Intn((pl-8)/32)
			for m := 0; m < 32; m++ {
				z[p+h+m] = 0
			}
			if !bytes.Equal(z, stored[idx]) {
				run("a proof with an erased hash", true, forge(z))
			}
		}
		run("an all-zero answer", true, forge(nil))
		run("a single signal byte", true, forge([]byte{0x80}))
		ff := bytes.Repeat([]byte{0xff}, bs)
		run("all ones", true, forge(ff))
		short := make([]byte, bs)
		for k := 0; k < 3; k++ {
			short[d.R.Intn(bs)] = byte(1 + d.R.Intn(255))
			run("an almost empty block", true, forge(short))
		}
		for k := 0; k < 3; k++ {
			a := cp()
			for m := range a {
				a[m] = d.Bytes(len(a[m]))
			}
			run("random answers", true, a)
		}
		// one server answers randomly, or with another server's answer
		a := cp()
		a[d.R.Intn(n)] = d.Bytes(len(a[0]))
		run("one random answer", false, a)
		a = cp()
		a[0] = append([]byte{}, a[1]...)
		run("one server's answer twice", false, a)
		a = cp()
		for k := 0; k < 1+d.R.Intn(4); k++ {
			a[d.R.Intn(n)][d.R.Intn(len(a[0]))] ^= byte(1 + d.R.Intn(255))
		}
		run("some modified bytes", false, a)
		// swapped rows in all answers
		if rows > 1 {
			a = cp()
			o := (idx/cols + 1 + d.R.Intn(rows-1)) % rows
			for k := range a {
				x := append([]byte{}, a[k][o*bs:(o+1)*bs]...)
				copy(a[k][o*bs:(o+1)*bs], a[k][idx/cols*bs:(idx/cols+1)*bs])
				copy(a[k][idx/cols*bs:(idx/cols+1)*bs], x)
			}
			run("the rows of all answers swapped", true, a)
		}
		// published root modified
		bad := db.Info
		bad.Merkle = &database.Merkle{Root: append([]byte{}, db.Root...), ProofLen: db.ProofLen}
		bad.Root[d.R.Intn(len(bad.Root))] ^= 1
		c2 := client.NewPIR(vc.NewTape(1), &bad)
		q2 := c2.Query(idx, 3)
		a2 := make([][]byte, 3)
		for k := range q2 {
			a2[k] = server.NewPIR(db).Answer(q2[k])
		}
		d.Input("answers of a database with another root")
		_, err := c2.Reconstruct(a2)
		d.Check(err != nil, "answers that do not fit the published root are accepted (index %d of %dx%d)", idx, rows, cols)
	}
}

func rowOf(a [][]byte, row, bs int) []byte {
	r := make([]byte, bs)
	for k := range a {
		for m := range r {
			r[m] ^= a[k][row*bs+m]
		}
	}
	return r
}
