package verifreplay

import (
	"bytes"
	"testing"
	"time"

	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/fss"
	vc "github.com/si-co/vpir-code/verifreplay_common"
)

func TestVerif(t *testing.T) {
	d := vc.New("FSS keys for random targets, lengths and vectors, evaluated at the target, at all one-bit neighbours and at random inputs", 25*time.Second)
	defer d.Done()
	const p = uint64(field.ModP)
	for it := 0; d.Rounds(it, 60, 3000); it++ {
		bl := 1 + d.R.Intn(16)
		if it < 16 {
			bl = it + 1
		}
		cl, s0, s1 := fss.ClientInitialize(bl), fss.ServerInitialize(bl), fss.ServerInitialize(bl)
		for use := 0; use < 2; use++ { // the same client and servers for inputs of different lengths
			nb := d.Pick(0, 1, 2, 3, 7, 8, 16, 17, 40, 64, 128, 160, 255, 256, 257, 300, 400)
			if it < 40 && use == 0 {
				nb = it
			}
			target := make([]bool, nb)
			k := d.R.Intn(4)
			for i := range target {
				target[i] = k == 0 || k > 1 && d.R.Intn(2) == 0
			}
			b := make([]uint32, bl)
			kb := d.R.Intn(4)
			for i := range b {
				switch kb {
				case 0:
					b[i] = uint32(d.R.Int63n(int64(p)))
				case 1:
					b[i] = 0
				case 2:
					b[i] = field.ModP - 1
				default:
					b[i] = uint32(d.Pick(0, 1, 2, int(p)-1, int(p)-2, d.R.Intn(int(p))))
				}
			}
			d.Input("target %v vector %v", target, b)
			d.Guard("keys", func() {
				tc, bc := append([]bool{}, target...), append([]uint32{}, b...)
				keys := cl.GenerateTreePF(tc, bc)
				if !d.Check(len(keys) == 2, "%d keys", len(keys)) {
					return
				}
				for i := range tc {
					d.Check(tc[i] == target[i], "generating the keys changed the target")
				}
				for i := range bc {
					d.Check(bc[i] == b[i], "generating the keys changed the vector")
				}
				eval := func(x []bool, isTarget bool) ([]uint32, []uint32) {
					o0, o1 := make([]uint32, bl), make([]uint32, bl)
					for i := range o0 { // whatever was there before
						o0[i], o1[i] = d.R.Uint32(), d.R.Uint32()
					}
					xc := append([]bool{}, x...)
					if d.R.Intn(2) == 0 {
						s0.EvaluatePF(0, keys[0], xc, o0)
						s1.EvaluatePF(1, keys[1], xc, o1)
					} else {
						s1.EvaluatePF(1, keys[1], xc, o1)
						s0.EvaluatePF(0, keys[0], xc, o0)
					}
					for i := range o0 {
						e := uint64(0)
						if isTarget {
							e = uint64(b[i])
						}
						if (uint64(o0[i])+uint64(o1[i]))%p != e {
							d.Fail("target %v vector %v: entry %d at input %v sums to %d, expected %d", target, b, i, x, (uint64(o0[i])+uint64(o1[i]))%p, e)
							break
						}
					}
					return o0, o1
				}
				a0, a1 := eval(target, true)
				r0, r1 := eval(target, true)
				for i := range a0 {
					d.Check(a0[i] == r0[i] && a1[i] == r1[i], "two evaluations of one key at one input differ")
				}
				for i := 0; i < nb; i++ {
					if nb > 40 && d.R.Intn(nb) > 20 && i > 2 && i < nb-3 {
						continue
					}
					x := append([]bool{}, target...)
					x[i] = !x[i]
					eval(x, false)
				}
				if nb > 0 {
					x := make([]bool, nb)
					same := true
					for i := range x {
						x[i] = d.R.Intn(2) == 0
						same = same && x[i] == target[i]
					}
					eval(x, same)
				}
			})
		}
	}
	// every entry has its own mask: two entries of one key agreeing, or an entry
	// of a key being a known constant, twice in a row is no accident
	for bl := 1; bl <= 16; bl++ {
		agree := map[[2]int]int{}
		known := map[int]int{}
		var prev []uint32
		fixed := map[int]int{}
		for rep := 0; rep < 3; rep++ {
			cl, s := fss.ClientInitialize(bl), fss.ServerInitialize(bl)
			target := make([]bool, 24)
			b := make([]uint32, bl)
			d.Input("masks of a vector of %d entries", bl)
			d.Guard("masks", func() {
				keys := cl.GenerateTreePF(target, b)
				x := make([]bool, 24)
				x[5] = true
				for side := byte(0); side < 2; side++ {
					o := make([]uint32, bl)
					s.EvaluatePF(side, keys[side], x, o)
					vals := append(append([]uint32{}, o...), keys[side].FinalCW...)
					for i := range vals {
						if vals[i] == 0 || vals[i] == field.ModP || vals[i] == 1 {
							known[i]++
						}
						if prev != nil && prev[i] == vals[i] {
							fixed[i]++
						}
						for j := 0; j < i; j++ {
							if (i < bl) == (j < bl) && vals[i] == vals[j] {
								agree[[2]int{i, j}]++
							}
						}
					}
					prev = vals
				}
				d.Check(!bytes.Equal(keys[0].SInit, keys[1].SInit), "both keys have one seed")
			})
		}
		for ij, n := range agree {
			d.Check(n < 4, "entries %d and %d (of the evaluation, then of the correction) of a key for %d entries are masked alike", ij[0], ij[1], bl)
		}
		for i, n := range known {
			d.Check(n < 4, "entry %d of a key for %d entries is not masked", i, bl)
		}
		for i, n := range fixed {
			// the correction is common to both keys of one query
			d.Check(n < 4, "entry %d of keys for %d entries is masked by a constant", i, bl)
		}
	}
}
