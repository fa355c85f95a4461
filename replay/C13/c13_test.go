package verifreplay

import (
	"encoding/binary"
	"math/big"
	"testing"
	"time"

	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/utils"
	vc "github.com/si-co/vpir-code/verifreplay_common"
	"lukechampine.com/uint128"
)

type tape struct {
	b []byte
	p int
}

func (t *tape) Read(p []byte) (int, error) {
	n := copy(p, t.b[t.p:])
	t.p += n
	return n, nil
}

func TestVerif(t *testing.T) {
	d := vc.New("matrix arithmetic on random shapes and values against big-integer arithmetic", 20*time.Second)
	defer d.Done()
	edge := []uint32{0, 1, 2, 0x80000000, 0x7fffffff, 0xffffffff, 0xfffffffe, 0x10000}
	word := func() uint32 {
		if d.R.Intn(2) == 0 {
			return edge[d.R.Intn(len(edge))]
		}
		return d.R.Uint32()
	}
	w128 := func() uint128.Uint128 {
		return uint128.New(uint64(word())<<32|uint64(word()), uint64(word())<<32|uint64(word()))
	}
	mod128 := new(big.Int).Lsh(big.NewInt(1), 128)
	dims := []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65}
	for i := 0; d.Rounds(i, 40, 1200); i++ {
		dim := func() int {
			if i%7 == 6 {
				return dims[d.R.Intn(len(dims))]
			}
			if i%53 == 50 {
				return 1 + d.R.Intn(150)
			}
			return dims[d.R.Intn(9)]
		}
		r, c, k := dim(), dim(), dim()
		if i%97 == 13 {
			// beyond the sizes where a kernel might block or use narrow indices
			switch d.R.Intn(3) {
			case 0:
				r, c, k = 1, 1100+d.R.Intn(3000), 1+d.R.Intn(3)
			case 1:
				r, c, k = 1+d.R.Intn(3), 1+d.R.Intn(3), 1100+d.R.Intn(3000)
			default:
				r, c, k = 1100+d.R.Intn(3000), 1+d.R.Intn(3), 1+d.R.Intn(3)
			}
		}
		m32 := func(r, c int) (*matrix.Matrix, []uint32) {
			x := make([]uint32, r*c)
			for i := range x {
				x[i] = word()
			}
			return matrix.NewWithData(r, c, append([]uint32{}, x...)), x
		}
		eq32 := func(what string, m *matrix.Matrix, r, c int, f func(i, j int) uint32) {
			if !d.Check(m.Rows() == r && m.Cols() == c && m.Len() == r*c, "%s: shape %dx%d with %d entries, expected %dx%d", what, m.Rows(), m.Cols(), m.Len(), r, c) {
				return
			}
			for i := 0; i < r; i++ {
				for j := 0; j < c; j++ {
					if e := f(i, j); m.Get(i, j) != e {
						d.Fail("%s: entry (%d,%d) is %d, expected %d", what, i, j, m.Get(i, j), e)
						return
					}
				}
			}
		}
		a, xa := m32(r, c)
		b, xb := m32(c, k)
		d.Input("product %dx%d times %dx%d: %v, %v", r, c, c, k, xa, xb)
		d.Guard("Mul", func() {
			p := matrix.Mul(a, b)
			eq32("product", p, r, k, func(i, j int) uint32 {
				var s uint32
				for l := 0; l < c; l++ {
					s += xa[i*c+l] * xb[l*k+j]
				}
				return s
			})
			eq32("left operand after the product", a, r, c, func(i, j int) uint32 { return xa[i*c+j] })
			eq32("right operand after the product", b, c, k, func(i, j int) uint32 { return xb[i*k+j] })
		})
		bb := matrix.NewBytes(c, k)
		xbb := make([]byte, c*k)
		den := d.Pick(0, 1, 3, 4)
		for i := range xbb {
			if d.R.Intn(4) < den {
				xbb[i] = 1
			}
			bb.SetData(i, xbb[i])
		}
		d.Input("binary product %dx%d times %dx%d: %v, %v", r, c, c, k, xa, xbb)
		d.Guard("BinaryMul", func() {
			p := matrix.BinaryMul(a, bb)
			eq32("0/1 product", p, r, k, func(i, j int) uint32 {
				var s uint32
				for l := 0; l < c; l++ {
					if xbb[l*k+j] == 1 {
						s += xa[i*c+l]
					}
				}
				return s
			})
			eq32("left operand after the 0/1 product", a, r, c, func(i, j int) uint32 { return xa[i*c+j] })
			for i := range xbb {
				d.Check(bb.Get(i/k, i%k) == xbb[i], "0/1 product changed entry %d of the byte matrix", i)
			}
			d.Check(bb.Len() == c*k, "byte matrix of %dx%d has %d entries", c, k, bb.Len())
		})
		b2, xb2 := m32(r, c)
		for _, op := range []string{"sum", "difference"} {
			aa := matrix.NewWithData(r, c, append([]uint32{}, xa...))
			d.Input("%s %dx%d: %v, %v", op, r, c, xa, xb2)
			d.Guard(op, func() {
				if op == "sum" {
					aa.Add(b2)
				} else {
					aa.Sub(b2)
				}
				eq32(op, aa, r, c, func(i, j int) uint32 {
					if op == "sum" {
						return xa[i*c+j] + xb2[i*c+j]
					}
					return xa[i*c+j] - xb2[i*c+j]
				})
				eq32("right operand after the "+op, b2, r, c, func(i, j int) uint32 { return xb2[i*c+j] })
				// a matrix combined with itself
				if op == "sum" {
					aa.Add(aa)
				} else {
					aa.Sub(aa)
				}
				eq32(op+" with itself", aa, r, c, func(i, j int) uint32 {
					if op == "sum" {
						return 2 * (xa[i*c+j] + xb2[i*c+j])
					}
					return 0
				})
			})
		}
		// element access
		n := matrix.New(r, c)
		eq32("new matrix", n, r, c, func(i, j int) uint32 { return 0 })
		ri, ci, v := d.R.Intn(r), d.R.Intn(c), word()
		d.Input("set (%d,%d) of %dx%d", ri, ci, r, c)
		d.Guard("Set", func() {
			a.Set(ri, ci, v)
			xa[ri*c+ci] = v
			eq32("after Set", a, r, c, func(i, j int) uint32 { return xa[i*c+j] })
			p := d.R.Intn(r * c)
			a.SetData(p, v+1)
			xa[p] = v + 1
			eq32("after SetData", a, r, c, func(i, j int) uint32 { return xa[i*c+j] })
		})
		// random matrices read the source in order
		tp := &tape{b: d.Bytes(16*r*c + 32)}
		d.Input("NewRandom %dx%d", r, c)
		d.Guard("NewRandom", func() {
			m := matrix.NewRandom(tp, r, c)
			eq32("random matrix", m, r, c, func(i, j int) uint32 { return binary.LittleEndian.Uint32(tp.b[4*(i*c+j):]) })
			tp.p = 0
			m8 := matrix.NewRandom128(tp, r, c)
			d.Check(m8.Rows() == r && m8.Cols() == c, "NewRandom128 shape")
			for q := 0; q < r*c; q++ {
				e := uint128.FromBytes(tp.b[16*q:])
				if !d.Check(m8.Get(q/c, q%c) == e, "NewRandom128 entry %d of %dx%d", q, r, c) {
					break
				}
			}
		})

		// refusals
		for _, s := range [][4]int{{r, c, c + 1, k}, {r, c + 1, c, k}, {r, c, c, k}} {
			bad := s[1] != s[2]
			d.Input("dimensions %v", s)
			x, _ := m32(s[0], s[1])
			y, _ := m32(s[2], s[3])
			yb := matrix.NewBytes(s[2], s[3])
			x8, y8 := matrix.New128(s[0], s[1]), matrix.New128(s[2], s[3])
			d.Check((vc.Panics(func() { matrix.Mul(x, y) }) != nil) == bad, "Mul of %dx%d and %dx%d: refused=%v", s[0], s[1], s[2], s[3], !bad)
			d.Check((vc.Panics(func() { matrix.BinaryMul(x, yb) }) != nil) == bad, "BinaryMul of %dx%d and %dx%d: refused=%v", s[0], s[1], s[2], s[3], !bad)
			d.Check((vc.Panics(func() { matrix.Mul128(x8, y8) }) != nil) == bad, "Mul128 of %dx%d and %dx%d: refused=%v", s[0], s[1], s[2], s[3], !bad)
			d.Check((vc.Panics(func() { matrix.BinaryMul128(x8, yb) }) != nil) == bad, "BinaryMul128 of %dx%d and %dx%d: refused=%v", s[0], s[1], s[2], s[3], !bad)
		}
		for _, s := range [][4]int{{r, c, r, c + 1}, {r, c, r + 1, c}, {r + 1, c, r, c}, {r, c + 1, r, c}, {r, c, c, r}} {
			bad := s[0] != s[2] || s[1] != s[3]
			d.Input("dimensions for sum %v", s)
			x, _ := m32(s[0], s[1])
			y, _ := m32(s[2], s[3])
			x8, y8 := matrix.New128(s[0], s[1]), matrix.New128(s[2], s[3])
			d.Check((vc.Panics(func() { x.Add(y) }) != nil) == bad, "Add of %v", s)
			d.Check((vc.Panics(func() { x.Sub(y) }) != nil) == bad, "Sub of %v", s)
			d.Check((vc.Panics(func() { x8.Add(y8) }) != nil) == bad, "Add128 of %v", s)
			d.Check((vc.Panics(func() { x8.Sub(y8) }) != nil) == bad, "Sub128 of %v", s)
		}

		// 128 bits
		mk8 := func(r, c int) (*matrix.Matrix128, []uint128.Uint128) {
			m := matrix.New128(r, c)
			x := make([]uint128.Uint128, r*c)
			for i := range x {
				x[i] = w128()
				m.Set(i/c, i%c, x[i])
			}
			return m, x
		}
		eq8 := func(what string, m *matrix.Matrix128, r, c int, f func(i, j int) *big.Int) {
			if !d.Check(m.Rows() == r && m.Cols() == c, "%s: shape %dx%d, expected %dx%d", what, m.Rows(), m.Cols(), r, c) {
				return
			}
			for i := 0; i < r; i++ {
				for j := 0; j < c; j++ {
					e := f(i, j)
					e.Mod(e, mod128)
					if m.Get(i, j).Big().Cmp(e) != 0 {
						d.Fail("%s: entry (%d,%d) is %v, expected %v", what, i, j, m.Get(i, j), e)
						return
					}
				}
			}
		}
		if r*c*k > 40000 {
			continue
		}
		a8, y8 := mk8(r, c)
		b8, z8 := mk8(c, k)
		d.Input("128-bit product %dx%d times %dx%d: %v, %v", r, c, c, k, y8, z8)
		d.Guard("Mul128", func() {
			p := matrix.Mul128(a8, b8)
			eq8("128-bit product", p, r, k, func(i, j int) *big.Int {
				s := new(big.Int)
				for l := 0; l < c; l++ {
					s.Add(s, new(big.Int).Mul(y8[i*c+l].Big(), z8[l*k+j].Big()))
				}
				return s
			})
			eq8("left operand after the product", a8, r, c, func(i, j int) *big.Int { return y8[i*c+j].Big() })
			eq8("right operand after the product", b8, c, k, func(i, j int) *big.Int { return z8[i*k+j].Big() })
			q := matrix.BinaryMul128(a8, bb)
			eq8("128-bit 0/1 product", q, r, k, func(i, j int) *big.Int {
				s := new(big.Int)
				for l := 0; l < c; l++ {
					if xbb[l*k+j] == 1 {
						s.Add(s, y8[i*c+l].Big())
					}
				}
				return s
			})
			eq8("left operand after the 0/1 product", a8, r, c, func(i, j int) *big.Int { return y8[i*c+j].Big() })
			c8, w8 := mk8(r, c)
			a8.Add(c8)
			eq8("128-bit sum", a8, r, c, func(i, j int) *big.Int { return new(big.Int).Add(y8[i*c+j].Big(), w8[i*c+j].Big()) })
			a8.Sub(c8)
			a8.Sub(c8)
			eq8("128-bit difference", a8, r, c, func(i, j int) *big.Int { return new(big.Int).Sub(y8[i*c+j].Big(), w8[i*c+j].Big()) })
			eq8("right operand after sum and difference", c8, r, c, func(i, j int) *big.Int { return w8[i*c+j].Big() })
		})
	}
	_ = utils.ParamsDefault
}
