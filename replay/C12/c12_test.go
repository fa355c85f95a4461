package verifreplay

import (
	"bytes"
	"encoding/binary"
	"testing"
	"time"

	"github.com/si-co/vpir-code/lib/matrix"
	"github.com/si-co/vpir-code/lib/utils"
	vc "github.com/si-co/vpir-code/verifreplay_common"
	"lukechampine.com/uint128"
)

func TestVerif(t *testing.T) {
	d := vc.New("encode/decode of random words, bits, matrices, matrix lists against the layout in the property", 8*time.Second)
	defer d.Done()
	edge := []uint32{0, 1, 0xff, 0x100, 0x01020304, 0x80000000, 0xffffffff, 0xff000000}
	word := func() uint32 {
		if d.R.Intn(2) == 0 {
			return edge[d.R.Intn(len(edge))]
		}
		return d.R.Uint32()
	}
	for i := 0; d.Rounds(i, 60, 3000); i++ {
		n := d.Pick(0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 64, 100, 1025)
		w := make([]uint32, n)
		for k := range w {
			w[k] = word()
		}
		w0 := append([]uint32{}, w...)
		d.Input("words %v", w)
		d.Guard("words", func() {
			b := utils.Uint32SliceToByteSlice(w)
			d.Hold("Uint32SliceToByteSlice", b)
			if !d.Check(len(b) == 4*n, "Uint32SliceToByteSlice of %d words gives %d bytes", n, len(b)) {
				return
			}
			for k := range w0 {
				d.Check(binary.BigEndian.Uint32(b[4*k:]) == w0[k], "word %d of %v is encoded as %x", k, w0, b[4*k:4*k+4])
				d.Check(w[k] == w0[k], "Uint32SliceToByteSlice modified word %d of its input", k)
			}
			v := utils.ByteSliceToUint32Slice(b)
			ok := len(v) == n
			for k := 0; ok && k < n; k++ {
				ok = v[k] == w0[k]
			}
			d.Check(ok, "words %v decode as %v", w0, v)
		})
		by := d.Bytes(d.Pick(0, 1, 2, 3, 5, 9, 33, 200))
		by0 := append([]byte{}, by...)
		d.Input("bits of %x", by)
		d.Guard("ByteToBits", func() {
			bits := utils.ByteToBits(by)
			d.Check(bytes.Equal(by, by0), "ByteToBits modified its input")
			if !d.Check(len(bits) == 8*len(by), "ByteToBits of %d bytes gives %d bits", len(by), len(bits)) {
				return
			}
			for k := range bits {
				d.Check(bits[k] == (by0[k/8]>>(7-uint(k)%8)&1 == 1), "bit %d of %x is %v", k, by0, bits[k])
			}
		})

		// 32-bit matrices
		r, c := d.Pick(0, 1, 2, 3, 5, 16, 33), d.Pick(0, 1, 2, 3, 5, 17)
		mk := func() (*matrix.Matrix, []uint32) {
			x := make([]uint32, r*c)
			for k := range x {
				x[k] = word()
			}
			return matrix.NewWithData(r, c, append([]uint32{}, x...)), x
		}
		same := func(m *matrix.Matrix, x []uint32) bool {
			if m.Rows() != r || m.Cols() != c || m.Len() != len(x) {
				return false
			}
			for k := range x {
				if m.Get(k/c, k%c) != x[k] {
					return false
				}
			}
			return true
		}
		m, x := mk()
		d.Input("matrix %dx%d %v", r, c, x)
		d.Guard("matrix encoding", func() {
			b := matrix.MatrixToBytes(m)
			d.Hold("MatrixToBytes", b)
			d.Check(same(m, x), "MatrixToBytes modified its input")
			exp := make([]byte, 8+4*len(x))
			binary.BigEndian.PutUint32(exp, uint32(r))
			binary.BigEndian.PutUint32(exp[4:], uint32(c))
			for k := range x {
				binary.BigEndian.PutUint32(exp[8+4*k:], x[k])
			}
			d.Check(bytes.Equal(b, exp), "MatrixToBytes of the %dx%d matrix %v is %x", r, c, x, b)
			d.Check(same(matrix.BytesToMatrix(exp), x), "BytesToMatrix does not return the %dx%d matrix %v", r, c, x)
		})
		// lists
		l := d.Pick(1, 2, 3, 5)
		var ms []*matrix.Matrix
		var xs [][]uint32
		for k := 0; k < l; k++ {
			m, x := mk()
			ms, xs = append(ms, m), append(xs, x)
		}
		d.Input("list of %d matrices %dx%d %v", l, r, c, xs)
		d.Guard("matrix list", func() {
			b := matrix.MatricesToBytes(ms)
			d.Hold("MatricesToBytes", b)
			exp := make([]byte, 4)
			binary.BigEndian.PutUint32(exp, uint32(8+4*r*c))
			for k := range ms {
				d.Check(same(ms[k], xs[k]), "MatricesToBytes modified matrix %d", k)
				exp = append(exp, matrix.MatrixToBytes(ms[k])...)
			}
			d.Check(bytes.Equal(b, exp), "MatricesToBytes of %d %dx%d matrices has another layout", l, r, c)
			back := matrix.BytesToMatrices(b)
			if d.Check(len(back) == l, "list of %d matrices decodes to %d", l, len(back)) {
				for k := range back {
					d.Check(same(back[k], xs[k]), "matrix %d of %d (%dx%d) does not survive the list encoding", k, l, r, c)
				}
			}
		})
		// 128-bit
		m8 := matrix.New128(r, c)
		y := make([]uint128.Uint128, r*c)
		for k := range y {
			y[k] = uint128.New(uint64(word())<<32|uint64(word()), uint64(word())<<32|uint64(word()))
			m8.Set(k/c, k%c, y[k])
		}
		same8 := func(m *matrix.Matrix128) bool {
			if m.Rows() != r || m.Cols() != c {
				return false
			}
			for k := range y {
				if m.Get(k/c, k%c) != y[k] {
					return false
				}
			}
			return true
		}
		d.Input("matrix128 %dx%d %v", r, c, y)
		d.Guard("matrix128 encoding", func() {
			b := matrix.Matrix128ToBytes(m8)
			d.Hold("Matrix128ToBytes", b)
			d.Check(same8(m8), "Matrix128ToBytes modified its input")
			exp := make([]byte, 8+16*len(y))
			binary.BigEndian.PutUint32(exp, uint32(r))
			binary.BigEndian.PutUint32(exp[4:], uint32(c))
			for k := range y {
				binary.LittleEndian.PutUint64(exp[8+16*k:], y[k].Lo)
				binary.LittleEndian.PutUint64(exp[16+16*k:], y[k].Hi)
			}
			d.Check(bytes.Equal(b, exp), "Matrix128ToBytes of the %dx%d matrix %v is %x", r, c, y, b)
			d.Check(same8(matrix.BytesToMatrix128(exp)), "BytesToMatrix128 does not return the %dx%d matrix %v", r, c, y)
		})
	}
}
