package verifreplay

import (
	"testing"
	"time"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/server"
	"github.com/si-co/vpir-code/lib/utils"
	vc "github.com/si-co/vpir-code/verifreplay_common"
	"lukechampine.com/uint128"
)

type u = uint128.Uint128

func neg(v u) u { return uint128.Zero.SubWrap(v) }
func small(v int) u {
	if v < 0 {
		return neg(uint128.From64(uint64(-v)))
	}
	return uint128.From64(uint64(v))
}

func far(v u, n uint64) bool { // distance from 0 modulo 2^128 at least n
	if w := neg(v); w.Cmp(v) < 0 {
		v = w
	}
	return v.Cmp64(n) >= 0
}

func row(v []u) *matrix.Matrix128 {
	m := matrix.New128(1, len(v))
	for k := range v {
		m.Set(0, k, v[k])
	}
	return m
}

func TestVerif(t *testing.T) {
	d := vc.New("128-bit LWE: acceptance around the bound for every coordinate, honest retrieval on random databases, structure of queries and answers", 25*time.Second)
	defer d.Done()
	seed := utils.GetDefaultSeedMatrixA()
	var noise, noiseSq float64
	var noiseN int
	for it := 0; d.Rounds(it, 40, 600); it++ {
		// 1. acceptance: with a zero digest the answer is compared directly. The
		// secret is zero when long reads deliver zeros, then the query shows the
		// blinding up to the noise.
		L, M := d.Pick(1, 2, 5, 16), d.Pick(1, 1, 2, 3, 7)
		N := 64
		pr := &utils.ParamsLWE{P: 2, N: N, Sigma: 6.4, L: L, M: M, B: 1 << 30, SeedA: seed, BytesMod: 16}
		info := &database.Info{NumRows: L, NumColumns: M, BlockSize: 1, Auth: &database.Auth{DigestLWE128: matrix.New128(N, M)}}
		tp := vc.NewTape(d.R.Int63())
		tp.Gen = func(p []byte) {
			for i := range p {
				p[i] = 0
			}
			if len(p) <= 32 {
				tp.R.Read(p)
			}
		}
		c := client.NewLWE128(tp, info, pr)
		i, j := d.R.Intn(L), d.R.Intn(M)
		d.Input("query row %d of %d column %d of %d", i, L, j, M)
		var q *matrix.Matrix128
		if !d.Guard("Query", func() { q = c.Query(i, j) }) {
			continue
		}
		if !d.Check(q.Rows() == 1 && q.Cols() == L && true, "the query for %d rows is %dx%d", L, q.Rows(), q.Cols()) {
			continue
		}
		plain := true
		for k := 0; k < L; k++ {
			if k != i && far(q.Get(0, k), 200) {
				plain = false
			}
		}
		rec := func(a []u) (uint32, bool) {
			v, err := c.Reconstruct(row(a))
			return v, err == nil
		}
		near := q.Get(0, i)
		base := make([]u, M)
		one := func(v u) bool {
			base[j] = v
			r, ok := rec(base)
			return ok && r == 1
		}
		pr.B = 1 << 20
		if plain && far(near, 1<<40) {
			if !d.Check(one(near), "the blinding, up to the noise, is not accepted with the bound %d", pr.B) {
				continue
			}
			edge := func(down bool) u { // the last accepted value in one direction
				lo, hi := uint64(0), uint64(pr.B)+4096
				at := func(m uint64) u {
					if down {
						return near.SubWrap64(m)
					}
					return near.AddWrap64(m)
				}
				for hi-lo > 1 {
					m := lo + (hi-lo)/2
					if one(at(m)) {
						lo = m
					} else {
						hi = m
					}
				}
				return at(lo)
			}
			up, down := edge(false), edge(true)
			w := up.SubWrap(down)
			if !d.Check(w == uint128.From64(2*uint64(pr.B-1)), "around the blinding factor %v values are accepted with the bound %d, expected %d", w.AddWrap64(1), pr.B, 2*pr.B-1) {
				continue
			}
			bl := down.AddWrap64(uint64(pr.B - 1))
			for rep := 0; rep < 60; rep++ {
				B := uint32(d.Pick(1, 2, 100, 5000, 1<<16, 1<<24, 1<<27, 1<<31, 1<<32-1))
				pr.B = B
				a := make([]u, M)
				good := true
				var want uint32
				for k := range a {
					off := d.Pick(0, 1, int(B)-1, int(B)-2, d.R.Intn(int(B)))
					if d.R.Intn(10) == 0 && (rep%2 == 0 || M == 1) {
						off = d.Pick(int(B), int(B)+1, int(B)+d.R.Intn(1000), 2*int(B), 1<<32, 1<<40, 1<<62)
					}
					if d.R.Intn(2) == 0 {
						off = -off
					}
					a[k] = small(off)
					if d.R.Intn(2) == 0 {
						a[k] = a[k].AddWrap(bl)
					}
					switch d.R.Intn(40) {
					case 0:
						a[k] = uint128.New(d.R.Uint64(), d.R.Uint64())
					case 1:
						a[k] = small(off).SubWrap(bl)
					case 2: // only the high half differs
						a[k] = uint128.New(small(off).Lo, small(off).Hi^1)
					case 3:
						a[k] = uint128.New(bl.AddWrap(small(off)).Lo, d.R.Uint64())
					case 4:
						a[k] = uint128.New(small(off).Lo, 1<<63)
					}
					z, o := !far(a[k], uint64(B)), !far(a[k].SubWrap(bl), uint64(B))
					good = good && (z || o)
					if k == j && !z {
						want = 1
					}
				}
				d.Input("bound %d blinding %v coordinates %v column %d", B, bl, a, j)
				var r uint32
				var ok bool
				if !d.Guard("Reconstruct", func() { r, ok = rec(a) }) {
					break
				}
				d.Check(ok == good, "bound %d, blinding %v, coordinates %v: accepted %v, expected %v", B, bl, a, ok, good)
				d.Check(!ok || !good || r == want, "bound %d, blinding %v, coordinates %v: column %d gives %d, expected %d", B, bl, a, j, r, want)
			}
		}
		if plain {
			for k := 0; k < L; k++ {
				if k != i {
					e := float64(int64(q.Get(0, k).Lo))
					noise += e
					noiseSq += e * e
					noiseN++
				}
			}
		}

		// 2. honest retrieval
		rows, cols := d.Pick(1, 2, 3, 8, 17), d.Pick(1, 2, 3, 9, 16)
		nn := d.Pick(1, 2, 33)
		pr2 := &utils.ParamsLWE{P: 2, N: nn, Sigma: 6.4, L: rows, M: cols, B: uint32(rows * 84), SeedA: seed, BytesMod: 16}
		mb := matrix.NewBytes(rows, cols)
		den := d.Pick(0, 1, 2, 4)
		for k := 0; k < rows*cols; k++ {
			if d.R.Intn(4) < den {
				mb.SetData(k, 1)
			}
		}
		A := matrix.NewRandom128(utils.NewPRG(seed), nn, rows)
		db := &database.LWE128{Matrix: mb, Info: database.Info{NumRows: rows, NumColumns: cols, BlockSize: 1,
			Auth: &database.Auth{DigestLWE128: matrix.BinaryMul128(A, mb)}}}
		s := server.NewLWE128(db)
		c2 := client.NewLWE128(vc.NewTape(d.R.Int63()), &db.Info, pr2)
		for rep := 0; rep < 6; rep++ {
			idx := d.R.Intn(rows * cols)
			i, j := idx/cols, idx%cols
			d.Input("honest: %dx%d secret dimension %d index %d", rows, cols, nn, idx)
			d.Guard("honest retrieval", func() {
				var r uint32
				var err error
				if rep%2 == 0 {
					q := c2.Query(i, j)
					q0 := make([]u, rows)
					for k := range q0 {
						q0[k] = q.Get(0, k)
					}
					a := s.Answer(q)
					for k := 0; k < cols; k++ {
						var e u
						for l := 0; l < rows; l++ {
							if mb.Get(l, k) == 1 {
								e = e.AddWrap(q0[l])
							}
						}
						d.Check(a.Rows() == 1 && a.Cols() == cols && a.Get(0, k) == e, "answer coordinate %d of %dx%d is not the query times the database", k, rows, cols)
					}
					r, err = c2.Reconstruct(a)
				} else {
					qb, e := c2.QueryBytes(idx)
					d.Check(e == nil, "QueryBytes: %v", e)
					ab, e := s.AnswerBytes(qb)
					d.Check(e == nil, "AnswerBytes: %v", e)
					r, err = c2.ReconstructBytes(ab)
				}
				d.Check(err == nil && r == uint32(mb.Get(i, j)), "honest answer for row %d column %d of %dx%d (secret dimension %d): %d, %v, the bit is %d", i, j, rows, cols, nn, r, err, mb.Get(i, j))
			})
		}
		// 3. the blinding sits at the requested row only: the identity database
		id := matrix.NewBytes(rows, rows)
		for k := 0; k < rows; k++ {
			id.SetData(k*rows+k, 1)
		}
		pr3 := *pr2
		pr3.M = rows
		info3 := &database.Info{NumRows: rows, NumColumns: rows, BlockSize: 1, Auth: &database.Auth{DigestLWE128: A}}
		c3 := client.NewLWE128(vc.NewTape(d.R.Int63()), info3, &pr3)
		i3, j3 := d.R.Intn(rows), d.R.Intn(rows)
		if d.R.Intn(2) == 0 {
			j3 = i3
		}
		d.Input("identity database of %d rows, row %d column %d", rows, i3, j3)
		d.Guard("identity database", func() {
			q := c3.Query(i3, j3)
			r, err := c3.Reconstruct(q)
			e := uint32(0)
			if i3 == j3 {
				e = 1
			}
			d.Check(err == nil && r == e, "the query for row %d of %d, minus secret times matrix, decodes at row %d to %d (%v)", i3, rows, j3, r, err)
		})
		// without the secret nothing is near
		if rows >= 3 {
			bad := 0
			q := c3.Query(i3, j3)
			for k := 0; k < rows; k++ {
				if far(q.Get(0, k), 1000) {
					bad++
				}
			}
			d.Check(bad >= rows-2, "the query for %d rows is not hidden by the secret: %d coordinates are large", rows, bad)
		}
	}
	if noiseN > 400 {
		v := noiseSq / float64(noiseN)
		d.Input("noise of %d samples", noiseN)
		d.Check(v > 10 && v < 120, "the noise of %d query coordinates has the mean square %v", noiseN, v)
	}
}
