package verifreplay

import (
	"encoding/binary"
	"testing"
	"time"

	"github.com/si-co/vpir-code/lib/field"
	vc "github.com/si-co/vpir-code/verifreplay_common"
)

const p = uint32(field.ModP)

func TestVerif(t *testing.T) {
	d := vc.New("field elements from byte strings, also those encoding the modulus", 10*time.Second)
	defer d.Done()
	d.Check(p == 1<<31-1, "the modulus is %d", p)
	words := []uint32{0, 1, p, p - 1, p | 1<<31, 1 << 31, 0xffffffff, 0xfffffffe, 0x7fffff7f, 0xff7fffff}
	word := func(b []byte) uint32 {
		w := d.R.Uint32()
		if d.R.Intn(2) == 0 {
			w = words[d.R.Intn(len(words))]
		}
		binary.BigEndian.PutUint32(b, w)
		return w & (1<<31 - 1)
	}
	for it := 0; d.Rounds(it, 300, 20000); it++ {
		n := d.Pick(0, 1, 2, 3, 4, 5, 16, 17)
		in := make([]byte, 4*n+d.Pick(0, 0, 1, 3, 8))
		d.R.Read(in)
		exp := make([]uint32, n)
		for k := range exp {
			exp[k] = word(in[4*k:]) % p
		}
		c0, c1 := append([]byte{}, in...), append([]byte{}, in...)
		o0, o1 := make([]uint32, n), make([]uint32, n)
		for k := range o0 {
			o0[k], o1[k] = d.R.Uint32(), d.R.Uint32()
		}
		d.Input("bytes %x to %d elements", in, n)
		d.Guard("BytesToElements", func() {
			field.BytesToElements(o0, c0)
			field.BytesToElements(o1, c1)
			for k := range o0 {
				d.Check(o0[k] < p && o1[k] < p, "element %d of %x is %d, not below the modulus", k, in, o0[k])
				d.Check(o0[k] == o1[k], "two conversions of %x give the elements %d: %d and %d", in, k, o0[k], o1[k])
				d.Check(o0[k] == exp[k], "element %d of %x is %d, its own byte group gives %d", k, in, o0[k], exp[k])
			}
		})
		// rejection sampling
		rej := d.Pick(0, 0, 1, 2, 5)
		var b []byte
		for k := 0; k < rej; k++ {
			if d.R.Intn(2) == 0 {
				b = append(b, 0x7f, 0xff, 0xff, 0xff)
			} else {
				b = append(b, 0xff, 0xff, 0xff, 0xff)
			}
		}
		x := d.R.Uint32()
		for x&(1<<31-1) == p {
			x = d.R.Uint32()
		}
		w := make([]byte, 4)
		binary.BigEndian.PutUint32(w, x)
		b = append(b, w...)
		d.Input("element from the randomness %x", b)
		d.Guard("RandElementWithPRG", func() {
			r := &vc.Fixed{B: b}
			e := field.RandElementWithPRG(r)
			d.Check(e < p, "the element from %x is %d", b, e)
			d.Check(e == x&(1<<31-1), "the element from %x is %d, the first group not encoding the modulus gives %d", b, e, x&(1<<31-1))
			d.Check(r.P >= len(b), "the modulus was drawn and no fresh randomness after it")
		})
		// vectors
		buf := make([]byte, 4*n)
		ex := make([]uint32, n)
		nrej := 0
		for k := range ex {
			ex[k] = word(buf[4*k:])
			if ex[k] == p {
				nrej++
			}
		}
		var tail []byte
		for k := 0; k <= nrej; k++ {
			for d.R.Intn(3) == 0 {
				tail = binary.BigEndian.AppendUint32(tail, p|uint32(d.R.Intn(2))<<31)
			}
			tail = binary.BigEndian.AppendUint32(tail, uint32(1000+k))
		}
		d.Input("vector of %d from %x", n, buf)
		d.Guard("RandVectorWithPRG", func() {
			r := &vc.Fixed{B: append(append([]byte{}, buf...), tail...)}
			v := field.RandVectorWithPRG(n, r)
			if !d.Check(len(v) == n, "a vector of %d elements has %d", n, len(v)) {
				return
			}
			seen := map[uint32]bool{}
			for k := range v {
				d.Check(v[k] < p, "element %d of the vector from %x is %d", k, buf, v[k])
				if ex[k] != p {
					d.Check(v[k] == ex[k], "element %d of the vector from %x is %d, its own byte group gives %d", k, buf, v[k], ex[k])
				} else {
					d.Check(v[k] >= 1000 && int(v[k]) <= 1000+nrej && !seen[v[k]], "element %d of the vector from %x encodes the modulus and is not redrawn from fresh randomness: %d", k, buf, v[k])
					seen[v[k]] = true
				}
			}
		})
	}
	for k := 0; k < 2000; k++ {
		d.Check(field.RandElement() < p, "a random element is not below the modulus")
	}
	a, b := field.RandVector(16), field.RandVector(16)
	same := 0
	for k := range a {
		d.Check(a[k] < p && b[k] < p, "a random vector has an element not below the modulus")
		if a[k] == b[k] {
			same++
		}
	}
	d.Check(same < 4, "two random vectors agree in %d of 16 elements", same)
}
