package verifreplay

import (
	"bytes"
	"encoding/binary"
	"math/bits"
	"testing"
	"time"

	"github.com/dkales/dpf-go/dpf"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/server"
	vc "github.com/si-co/vpir-code/verifreplay_common"
)

type answerer interface {
	Answer([]byte) []byte
	AnswerBytes([]byte) ([]byte, error)
}

func TestVerif(t *testing.T) {
	d := vc.New("point retrieval on random shapes, block lengths, indices and server counts against the database contents", 20*time.Second)
	defer d.Done()
	for it := 0; d.Rounds(it, 60, 4000); it++ {
		rows := d.Pick(1, 1, 2, 3, 5, 16, 17)
		cols := d.Pick(1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257)
		bs := d.Pick(1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 100)
		switch it % 40 {
		case 37:
			rows, cols, bs = 1, 1+d.R.Intn(70000), d.Pick(1, 2)
		case 38:
			rows, cols, bs = 1+d.R.Intn(600), 1+d.R.Intn(5), d.Pick(1, 3)
		case 39:
			rows, cols, bs = 1+d.R.Intn(3), 1+d.R.Intn(3), 1+d.R.Intn(5000)
		}
		mode := d.R.Intn(4) // all full, random, with empty ones, mostly empty
		lens := make([]int, rows*cols)
		var entries []byte
		starts := make([]int, rows*cols)
		for k := range lens {
			switch mode {
			case 0:
				lens[k] = bs
			case 1:
				lens[k] = d.R.Intn(bs + 1)
			case 2:
				lens[k] = d.Pick(0, bs, d.R.Intn(bs+1))
			default:
				if d.R.Intn(5) == 0 {
					lens[k] = bs
				}
			}
			starts[k] = len(entries)
			blk := d.Bytes(lens[k])
			if d.R.Intn(6) == 0 && len(blk) > 0 {
				blk[len(blk)-1] = byte(d.Pick(0, 0x80, 0xff))
			}
			entries = append(entries, blk...)
		}
		block := func(k int) []byte {
			b := make([]byte, bs)
			copy(b, entries[starts[k]:starts[k]+lens[k]])
			return b
		}
		db := &database.Bytes{Entries: append([]byte{}, entries...), Info: database.Info{
			NumRows: rows, NumColumns: cols, BlockSize: bs,
			BlockLengths: append([]int{}, lens...), PIRType: []string{"classical", ""}[d.R.Intn(2)],
			Merkle: &database.Merkle{ProofLen: 0}}}
		n := d.Pick(2, 2, 3, 3, 4, 5, 8)
		idx := d.R.Intn(rows * cols)
		if d.R.Intn(3) == 0 {
			idx = d.Pick(0, rows*cols-1, cols-1)
		}
		cores := d.Pick(-1, 1, 2, 3, 16)
		d.Input("rows %d columns %d block size %d lengths mode %d servers %d index %d cores %d lengths %v", rows, cols, bs, mode, n, idx, cores, lens)
		d.Guard("honest point retrieval", func() {
			var srv []answerer
			for k := 0; k < n; k++ {
				var co []int
				if cores > 0 {
					co = []int{cores}
				}
				if n == 2 {
					srv = append(srv, server.NewPIRTwo(db, co...))
				} else {
					srv = append(srv, server.NewPIR(db, co...))
				}
			}
			cl := client.NewPIR(vc.NewTape(d.R.Int63()), &db.Info)
			if d.R.Intn(3) == 0 { // an earlier query of the same client
				cl.Query(d.R.Intn(rows*cols), n)
			}
			var qs [][]byte
			viaBytes := d.R.Intn(2) == 0
			if viaBytes {
				in := make([]byte, 4)
				binary.BigEndian.PutUint32(in, uint32(idx))
				var err error
				qs, err = cl.QueryBytes(in, n)
				if !d.Check(err == nil, "QueryBytes: %v", err) {
					return
				}
			} else {
				qs = cl.Query(idx, n)
			}
			if !d.Check(len(qs) == n, "%d queries for %d servers", len(qs), n) {
				return
			}
			answers := make([][]byte, n)
			for k := range qs {
				q0 := append([]byte{}, qs[k]...)
				var a []byte
				if viaBytes {
					var err error
					a, err = srv[k].AnswerBytes(qs[k])
					if !d.Check(err == nil, "AnswerBytes: %v", err) {
						return
					}
				} else {
					a = srv[k].Answer(qs[k])
				}
				if d.R.Intn(4) == 0 {
					d.Check(bytes.Equal(a, srv[k].Answer(q0)), "the same query gets two answers")
				}
				sel := q0
				if n == 2 {
					sel = dpf.EvalFull(q0, uint64(bits.Len(uint(cols))))
				}
				exp := make([]byte, rows*bs)
				for i := 0; i < rows; i++ {
					for j := 0; j < cols; j++ {
						if sel[j/8]>>(uint(j)%8)&1 == 1 {
							x := entries[starts[i*cols+j] : starts[i*cols+j]+lens[i*cols+j]]
							for m := range x {
								exp[i*bs+m] ^= x[m]
							}
						}
					}
				}
				if !d.Check(bytes.Equal(a, exp), "answer of server %d of %d is not, row by row, the XOR of the selected blocks (rows %d columns %d block size %d lengths %v)", k, n, rows, cols, bs, lens) {
					return
				}
				answers[k] = a
			}
			cp := make([][]byte, n)
			for k := range cp {
				cp[k] = append([]byte{}, answers[k]...)
			}
			r, err := cl.Reconstruct(answers)
			d.Check(err == nil && bytes.Equal(r, block(idx)), "rows %d columns %d block size %d servers %d: index %d reconstructs to %x (%v), the block is %x", rows, cols, bs, n, idx, r, err, block(idx))
			r2, err := cl.ReconstructBytes(cp)
			b2, _ := r2.([]byte)
			d.Check(err == nil && bytes.Equal(b2, block(idx)), "ReconstructBytes of the same answers gives %x (%v), the block is %x", b2, err, block(idx))
			// any answers: the reconstruction is the XOR of the requested row
			for k := range cp {
				cp[k] = d.Bytes(rows * bs)
			}
			exp := make([]byte, bs)
			for k := range cp {
				for m := range exp {
					exp[m] ^= cp[k][idx/cols*bs+m]
				}
			}
			r, err = cl.Reconstruct(cp)
			d.Check(err == nil && bytes.Equal(r, exp), "random answers for index %d of %dx%d reconstruct to %x, their XOR in the row is %x", idx, rows, cols, r, exp)
			d.Check(bytes.Equal(db.Entries, entries), "answering changed the database")
		})
	}
}
