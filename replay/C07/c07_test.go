package verifreplay

import (
	"encoding/binary"
	"testing"
	"time"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/field"
	"github.com/si-co/vpir-code/lib/fss"
	"github.com/si-co/vpir-code/lib/query"
	vc "github.com/si-co/vpir-code/verifreplay_common"
)

const p = uint64(field.ModP)

func TestVerif(t *testing.T) {
	d := vc.New("answers with valid and invalid tags for random factors, values and shares", 15*time.Second)
	defer d.Done()
	seen := map[uint32]int{}
	for it := 0; d.Rounds(it, 200, 6000); it++ {
		info := &database.Info{NumColumns: 3, NumRows: 1, BlockSize: 1}
		tp := vc.NewTape(d.R.Int63())
		c := client.NewPredicateAPIR(tp, info)
		for use := 0; use < 2; use++ {
			in := make([]bool, d.Pick(1, 8, 20))
			for k := range in {
				in[k] = d.R.Intn(2) == 0
			}
			qs := c.Query(&query.ClientFSS{Info: &query.Info{Target: query.UserId}, Input: in}, 2)
			// the shared vector is what the keys evaluate to at the target
			al := make([]uint64, 5)
			o := [2][]uint32{make([]uint32, 5), make([]uint32, 5)}
			for k := range o {
				fss.ServerInitialize(5).EvaluatePF(byte(k), qs[k].FssKey, in, o[k])
			}
			for k := range al {
				al[k] = (uint64(o[0][k]) + uint64(o[1][k])) % p
			}
			d.Check(al[0] == 1, "the shared vector starts with %d", al[0])
			for k := 1; k < 5; k++ {
				if al[k] > 1 {
					seen[uint32(al[k])]++
				}
				if seen[uint32(al[k])] > 3 || al[k] <= 1 && it > 0 && al[1] == al[2] {
					d.Fail("the factors %v are not fresh", al[1:])
				}
			}
			for rep := 0; rep < 12; rep++ {
				avg := d.R.Intn(2) == 0
				n := 1
				if avg {
					n = 2
				}
				vals := make([]uint64, n)
				tags := make([]uint64, 5*n)
				bad := ""
				for g := 0; g < n; g++ {
					vals[g] = uint64(d.R.Int63n(int64(p)))
					switch d.R.Intn(5) {
					case 0:
						vals[g] = uint64(d.Pick(0, 1, 2, int(p)-1))
					case 1:
						vals[g] = uint64(d.R.Intn(1000))
					}
					tags[5*g] = vals[g]
					for k := 1; k < 5; k++ {
						tags[5*g+k] = al[k] * vals[g] % p
					}
				}
				ok := true
				switch d.R.Intn(4) {
				case 0: // one tag wrong
					k := d.R.Intn(5 * n)
					if k%5 == 0 {
						k++
					}
					nv := (tags[k] + uint64(d.Pick(1, 2, int(p)-1, d.R.Intn(int(p)-1)+1))) % p
					if d.R.Intn(3) == 0 { // two tags exchanged
						j := k/5*5 + 1 + d.R.Intn(4)
						nv = tags[j]
						tags[j] = tags[k]
					}
					if d.R.Intn(4) == 0 && avg { // the tag of the other value
						nv = tags[(k+5)%10]
					}
					tags[k] = nv
					bad = "one wrong tag"
				case 1: // the value changed, the tags kept
					g := d.R.Intn(n)
					vals[g] = (vals[g] + uint64(d.Pick(1, 2, int(p)-1, 1000))) % p
					tags[5*g] = vals[g]
					bad = "a changed value"
				}
				for g := 0; g < n; g++ {
					for k := 1; k < 5; k++ {
						ok = ok && tags[5*g+k] == al[k]*vals[g]%p
					}
				}
				a := [][]uint32{make([]uint32, 5*n), make([]uint32, 5*n)}
				for k := range tags {
					x := uint64(d.R.Int63n(int64(p)))
					switch d.R.Intn(6) {
					case 0:
						x = 0
					case 1:
						x = p - 1
					}
					y := (tags[k] + p - x) % p
					if y == 0 && d.R.Intn(2) == 0 {
						y = p // the other representative servers may send
					}
					a[0][k], a[1][k] = uint32(x), uint32(y)
					if d.R.Intn(2) == 0 {
						a[0][k], a[1][k] = a[1][k], a[0][k]
					}
				}
				d.Input("factors %v values %v tags %v (%s) average %v shares %v", al[1:], vals, tags, bad, avg, a)
				d.Guard("reconstruction", func() {
					var v uint32
					var err error
					if d.R.Intn(2) == 0 {
						v, err = c.Reconstruct(a)
					} else {
						b := make([][]byte, 2)
						for k := range b {
							b[k] = make([]byte, 4*len(a[k]))
							for m := range a[k] {
								binary.BigEndian.PutUint32(b[k][4*m:], a[k][m])
							}
						}
						var r interface{}
						r, err = c.ReconstructBytes(b)
						v, _ = r.(uint32)
					}
					switch {
					case !ok:
						d.Check(err != nil, "factors %v: values %v with the tags %v (%s) are accepted as %d", al[1:], vals, tags, bad, v)
					case !avg:
						d.Check(err == nil && uint64(v) == vals[0], "factors %v: value %d with its valid tags gives %d, %v", al[1:], vals[0], v, err)
					case vals[0] != 0:
						d.Check(err == nil && uint64(v) == vals[1]/vals[0], "factors %v: count %d and sum %d with valid tags give %d, %v", al[1:], vals[0], vals[1], v, err)
					default:
						d.Check(err != nil, "an average over nothing is accepted as %d", v)
					}
				})
			}
		}
	}
}
