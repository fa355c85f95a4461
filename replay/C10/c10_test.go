package verifreplay

import (
	"testing"
	"time"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/ecc"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	vc "github.com/si-co/vpir-code/verifreplay_common"
)

func dist(v uint32) uint32 {
	if -v < v {
		return -v
	}
	return v
}

func TestVerif(t *testing.T) {
	d := vc.New("majority decoding of all small words and random ones; amplified retrieval with honest and corrupted repetitions", 25*time.Second)
	defer d.Done()
	// majority decoding: every word over three symbols up to length 7
	check := func(e *ecc.ECC, w []uint32) {
		c := append([]uint32{}, w...)
		d.Input("word %v", w)
		d.Guard("Decode", func() {
			r, err := e.Decode(c)
			cnt := map[uint32]int{}
			maj, has := uint32(0), false
			for _, x := range w {
				cnt[x]++
				if cnt[x] > len(w)/2 {
					maj, has = x, true
				}
			}
			if has {
				d.Check(err == nil && r == maj, "the word %v decodes to %d, %v; its majority is %d", w, r, err, maj)
			} else {
				d.Check(err != nil, "the word %v without a strict majority decodes to %d", w, r)
			}
			for k := range w {
				d.Check(c[k] == w[k], "Decode changed its input")
			}
		})
	}
	for n := 1; n <= 7; n++ {
		tot := 1
		for k := 0; k < n; k++ {
			tot *= 3
		}
		for x := 0; x < tot; x++ {
			w := make([]uint32, n)
			for k, y := 0, x; k < n; k, y = k+1, y/3 {
				w[k] = uint32(y % 3)
			}
			check(ecc.New(n/2), w)
		}
	}
	for it := 0; d.Rounds(it, 300, 5000); it++ {
		tt := d.R.Intn(12)
		v := d.R.Uint32()
		if d.R.Intn(3) == 0 {
			v = uint32(d.Pick(0, 1))
		}
		e := ecc.New(tt)
		d.Input("encode %d for %d corruptions", v, tt)
		w := e.Encode(v)
		d.Check(len(w) == 2*tt+1, "the code word for %d corruptions has length %d", tt, len(w))
		for _, x := range w {
			d.Check(x == v, "the code word of %d is %v", v, w)
		}
		// fewer than half of the positions corrupted
		c := tt
		if d.R.Intn(3) == 0 {
			c = tt + 1 + d.R.Intn(tt+1)
		}
		o := d.R.Uint32()
		switch d.R.Intn(3) {
		case 0: // in front
			for k := 0; k < c && k < len(w); k++ {
				w[k] = o
			}
		case 1:
			for _, k := range d.R.Perm(len(w))[:min(c, len(w))] {
				w[k] = uint32(d.Pick(0, 1, int(o), int(v)+1))
			}
		default:
			for k := 0; k < c && 2*k < len(w); k++ {
				w[2*k] = o
			}
		}
		check(e, w)
	}
	// amplified retrieval
	seed := utils.GetDefaultSeedMatrixA()
	for it := 0; d.Rounds(it, 40, 500); it++ {
		tt := d.Pick(0, 1, 1, 2, 3, 5)
		rows, cols := d.Pick(1, 2, 3, 9), d.Pick(1, 2, 3, 8)
		nn := d.Pick(1, 2, 33)
		pr := &utils.ParamsLWE{P: 2, N: nn, Sigma: 6.4, L: rows, M: cols, B: uint32(rows * 84), SeedA: seed, BytesMod: 4}
		mb := matrix.NewBytes(rows, cols)
		for k := 0; k < rows*cols; k++ {
			mb.SetData(k, byte(d.R.Intn(2)))
		}
		db := &database.LWE{Matrix: mb, Info: database.Info{NumRows: rows, NumColumns: cols, BlockSize: 1,
			Auth: &database.Auth{DigestLWE: matrix.BinaryMul(matrix.NewRandom(utils.NewPRG(seed), nn, rows), mb)}}}
		full := false // some database column is not zero
		for k := 0; k < rows*cols; k++ {
			full = full || mb.Get(k/cols, k%cols) == 1
		}
		s := server.NewAmplify(db)
		c := client.NewAmplify(vc.NewTape(d.R.Int63()), &db.Info, pr, tt)
		for rep := 0; rep < 3; rep++ {
			idx := d.R.Intn(rows * cols)
			i, j := idx/cols, idx%cols
			d.Input("honest: %d repetitions, %dx%d, index %d, secret dimension %d", 2*tt+1, rows, cols, idx, nn)
			d.Guard("honest amplified retrieval", func() {
				var r uint32
				var err error
				if rep%2 == 0 {
					q := c.Query(i, j)
					d.Check(len(q) == 2*tt+1, "%d queries for %d repetitions", len(q), 2*tt+1)
					a := s.Answer(q)
					r, err = c.Reconstruct(a)
				} else {
					qb, e := c.QueryBytes(idx)
					d.Check(e == nil, "QueryBytes: %v", e)
					ab, e := s.AnswerBytes(qb)
					d.Check(e == nil, "AnswerBytes: %v", e)
					r, err = c.ReconstructBytes(ab)
				}
				d.Check(err == nil && r == uint32(mb.Get(i, j)), "honest: %d repetitions, row %d column %d of %dx%d: %d, %v, the bit is %d", 2*tt+1, i, j, rows, cols, r, err, mb.Get(i, j))
				// exchanged answers are refused: another repetition's state does not fit
				if tt > 0 && nn > 1 {
					q := c.Query(i, j)
					a := s.Answer(q)
					x, y := d.R.Intn(len(a)), d.R.Intn(len(a))
					if x != y {
						a[x], a[y] = a[y], a[x]
						_, err := c.Reconstruct(a)
						// a column with a set bit is off by a random 32-bit value
						d.Check(err != nil || !full, "%d repetitions: the answers %d and %d exchanged are accepted", 2*tt+1, x, y)
					}
				}
			})
		}
		// chosen outputs per repetition: zero digest and zero secret show each
		// blinding up to the noise
		N := 64
		pr2 := &utils.ParamsLWE{P: 2, N: N, Sigma: 6.4, L: rows, M: cols, B: 5000, SeedA: seed, BytesMod: 4}
		info := &database.Info{NumRows: rows, NumColumns: cols, BlockSize: 1, Auth: &database.Auth{DigestLWE: matrix.New(N, cols)}}
		tp := vc.NewTape(d.R.Int63())
		tp.Gen = func(p []byte) {
			for i := range p {
				p[i] = 0
			}
			if len(p) <= 32 {
				tp.R.Read(p)
			}
		}
		c2 := client.NewAmplify(tp, info, pr2, tt)
		i, j := d.R.Intn(rows), d.R.Intn(cols)
		var q []*matrix.Matrix
		if !d.Guard("Query", func() { q = c2.Query(i, j) }) || len(q) != 2*tt+1 {
			continue
		}
		bl := make([]uint32, len(q))
		plain := true
		for k := range q {
			bl[k] = q[k].Get(0, i)
			plain = plain && dist(bl[k]) > 1<<16
			for l := 0; l < rows; l++ {
				plain = plain && (l == i || dist(q[k].Get(0, l)) < 200)
			}
			for l := 0; l < k; l++ {
				if plain && dist(bl[k]-bl[l]) < 200 {
					d.Fail("the repetitions %d and %d of %d use one blinding factor", l, k, len(q))
					plain = false
				} else if dist(bl[k]-bl[l]) < 1<<16 {
					plain = false
				}
			}
		}
		if !plain {
			continue
		}
		for rep := 0; rep < 30; rep++ {
			bits := make([]uint32, len(q))
			ones := 0
			for k := range bits {
				bits[k] = uint32(d.R.Intn(2))
				if rep%4 == 0 && k > 0 {
					bits[k] = bits[0]
				}
				ones += int(bits[k])
			}
			badRep, badCol := -1, -1
			if rep%3 == 0 {
				badRep, badCol = d.R.Intn(len(q)), d.R.Intn(cols)
			}
			a := make([]*matrix.Matrix, len(q))
			for k := range a {
				row := make([]uint32, cols)
				for m := range row {
					off := uint32(d.R.Intn(4000)) - 2000
					b := uint32(d.R.Intn(2))
					if m == j {
						b = bits[k]
					}
					row[m] = off + b*bl[k]
					if k == badRep && m == badCol {
						row[m] = off + 1<<14 + uint32(d.R.Intn(1<<14))
						if d.R.Intn(2) == 0 {
							row[m] += bl[k]
						}
						if o := d.R.Intn(len(q)); o != k && d.R.Intn(2) == 0 {
							row[m] = bl[o]
						}
					}
				}
				a[k] = matrix.NewWithData(1, cols, row)
			}
			d.Input("%d repetitions with the outputs %v, invalid repetition %d", len(q), bits, badRep)
			d.Guard("Reconstruct", func() {
				r, err := c2.Reconstruct(a)
				if badRep >= 0 {
					d.Check(err != nil, "%d repetitions with the outputs %v: repetition %d is invalid in column %d (asked: %d), accepted as %d", len(q), bits, badRep, badCol, j, r)
					return
				}
				m := uint32(0)
				if 2*ones > len(q) {
					m = 1
				}
				d.Check(err == nil && r == m, "%d repetitions with the outputs %v give %d, %v", len(q), bits, r, err)
			})
		}
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
