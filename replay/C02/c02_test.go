package verifreplay

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/query"
	vc "github.com/si-co/vpir-code/verifreplay_common"
)

func info(rows, cols int) *database.Info {
	return &database.Info{NumRows: rows, NumColumns: cols, BlockSize: 1, Merkle: &database.Merkle{}}
}

// child makes one query that has to be refused
func child(what string) {
	f := strings.Split(what, ":")
	n, _ := strconv.Atoi(f[1])
	i, _ := strconv.Atoi(f[2])
	switch f[0] {
	case "point":
		cl := client.NewPIR(vc.NewTape(1), info(4, 30))
		q := cl.Query(i, n)
		if q != nil {
			fmt.Println("ANSWERED", len(q))
		}
	case "pointbytes":
		cl := client.NewPIR(vc.NewTape(1), info(4, 30))
		in := make([]byte, 4)
		binary.BigEndian.PutUint32(in, uint32(i))
		q, err := cl.QueryBytes(in, n)
		if err == nil && q != nil {
			fmt.Println("ANSWERED", len(q))
		}
	case "apir", "pir", "apirbytes", "pirbytes":
		qi := &query.Info{Target: query.PubKeyAlgo}
		cq := qi.ToPKAClientFSS("RSA")
		in, _ := cq.Encode()
		var q []*query.FSS
		var qb [][]byte
		switch f[0] {
		case "apir":
			q = client.NewPredicateAPIR(vc.NewTape(1), info(1, 3)).Query(cq, n)
		case "pir":
			q = client.NewPredicatePIR(vc.NewTape(1), info(1, 3)).Query(cq, n)
		case "apirbytes":
			qb, _ = client.NewPredicateAPIR(vc.NewTape(1), info(1, 3)).QueryBytes(in, n)
		default:
			qb, _ = client.NewPredicatePIR(vc.NewTape(1), info(1, 3)).QueryBytes(in, n)
		}
		if q != nil || qb != nil {
			fmt.Println("ANSWERED", len(q), len(qb))
		}
	}
}

func TestVerif(t *testing.T) {
	if w := vc.ChildOf(); w != "" {
		child(w)
		return
	}
	d := vc.New("query shares of random shapes, indices and server counts; refusals; predicate keys", 15*time.Second)
	defer d.Done()
	for _, w := range []string{"point:1:3", "point:0:3", "point:-1:0", "point:3:-1", "point:2:-1", "point:2:-7", "point:1:-1", "point:4:-120",
		"pointbytes:1:3", "pointbytes:0:0", "apir:1:0", "apir:3:0", "apir:0:0", "apir:4:0", "pir:1:0", "pir:3:0", "pir:0:0", "pir:-2:0", "apirbytes:3:0", "pirbytes:1:0"} {
		d.Input("refusal of %s (kind:servers:index)", w)
		out, _ := vc.Child(w)
		d.Check(!strings.Contains(out, "ANSWERED"), "the query %s (kind:servers:index) is not refused", w)
	}
	for it := 0; d.Rounds(it, 200, 3000); it++ {
		n := d.Pick(3, 3, 4, 5, 6, 9)
		rows := d.Pick(1, 1, 2, 7)
		cols := d.Pick(1, 2, 7, 8, 9, 15, 16, 17, 64, 100, 200, 255, 256, 257, 1000, 1024)
		ia, ib := d.R.Intn(rows*cols), d.R.Intn(rows*cols)
		seed := d.R.Int63()
		ta, tb := vc.NewTape(seed), vc.NewTape(seed)
		d.Input("servers %d rows %d columns %d indices %d, %d", n, rows, cols, ia, ib)
		d.Guard("query", func() {
			ca, cb := client.NewPIR(ta, info(rows, cols)), client.NewPIR(tb, info(rows, cols))
			// the requested indices come first, then a second query of each client
			var used int
			for round := 0; round < 2; round++ {
				qa, qb := ca.Query(ia, n), cb.Query(ib, n)
				if !d.Check(len(qa) == n && len(qb) == n, "%d shares for %d servers", len(qa), n) {
					return
				}
				unit := func(q [][]byte, ix int) bool {
					x := make([]byte, len(q[0]))
					for _, s := range q {
						if len(s) != len(x) {
							return false
						}
						for k := range s {
							x[k] ^= s[k]
						}
					}
					if len(x)*8 < cols {
						return false
					}
					c := ix % cols
					for k := range x {
						e := byte(0)
						if k == c/8 {
							e = 1 << (uint(c) % 8)
						}
						if x[k] != e {
							return false
						}
					}
					return true
				}
				d.Check(unit(qa, ia), "the shares of the query for index %d (%d columns, %d servers) do not add up to the unit vector of its column", ia, cols, n)
				d.Check(unit(qb, ib), "the shares of the query for index %d (%d columns, %d servers) do not add up to the unit vector of its column", ib, cols, n)
				// all but one share do not depend on the index, and are separate
				// unmodified segments of fresh randomness
				differ := 0
				for k := range qa {
					if !bytes.Equal(qa[k], qb[k]) {
						differ++
					}
				}
				want := 1
				if ia%cols == ib%cols {
					want = 0
				}
				d.Check(differ == want, "with equal randomness, %d of the %d shares for the indices %d and %d (%d columns) differ", differ, n, ia, ib, cols)
				if len(qa[0]) >= 8 {
					fresh := ta.Out[used:]
					miss := 0
					var at []int
					for k := range qa {
						p := bytes.Index(fresh, qa[k])
						if p < 0 {
							miss++
							continue
						}
						for _, o := range at {
							d.Check(p >= o+len(qa[k]) || o >= p+len(qa[k]), "two shares of the query for %d (%d columns, %d servers) use the same randomness", ia, cols, n)
						}
						at = append(at, p)
					}
					d.Check(miss == 1, "%d of the %d shares of the query for index %d (%d columns, round %d) are not segments of fresh client randomness", miss, n, ia, cols, round)
				}
				used = len(ta.Out)
				ia, ib = ib, ia
				if used != len(tb.Out) {
					d.Fail("the randomness used depends on the index: %d and %d bytes for %d and %d", used, len(tb.Out), ib, ia)
				}
			}
		})
		// two servers: keys of one shape, fresh
		d.Input("two servers, rows %d columns %d index %d", rows, cols, ia)
		d.Guard("two-server query", func() {
			cl := client.NewPIR(vc.NewTape(seed), info(rows, cols))
			q, p := cl.Query(ia, 2), cl.Query(ib, 2)
			d.Check(len(q) == 2 && len(q[0]) == len(q[1]) && len(p[0]) == len(q[0]), "two-server keys have different sizes")
			for _, s := range [][]byte{p[0], p[1]} {
				d.Check(!bytes.Equal(s, q[0]) && !bytes.Equal(s, q[1]), "two queries share a key")
			}
			d.Check(!bytes.Equal(q[0], q[1]), "both servers get the same key")
		})
	}
	// predicate keys
	var ones, total int
	seeds := map[string]bool{}
	for it := 0; it < 60; it++ {
		nb := d.Pick(1, 8, 16, 33, 128, 300)
		in := make([]bool, nb)
		for k := range in {
			in[k] = d.R.Intn(2) == 0 && it%3 != 0
		}
		seed := d.R.Int63()
		if it%2 == 0 {
			seed = 7
		}
		d.Input("predicate query %v", in)
		d.Guard("predicate query", func() {
			var q []*query.FSS
			cq := &query.ClientFSS{Info: &query.Info{Target: query.UserId}, Input: in}
			ex := 1
			if it%4 < 2 {
				q = client.NewPredicateAPIR(vc.NewTape(seed), info(1, 3)).Query(cq, 2)
				ex = 5
			} else {
				q = client.NewPredicatePIR(vc.NewTape(seed), info(1, 3)).Query(cq, 2)
			}
			if !d.Check(len(q) == 2, "%d keys", len(q)) {
				return
			}
			a, b := q[0].FssKey, q[1].FssKey
			shape := len(a.SInit) == 16 && len(b.SInit) == 16 && len(a.CW) == nb && len(b.CW) == nb && len(a.FinalCW) == ex && len(b.FinalCW) == ex && a.TInit <= 1 && b.TInit <= 1
			for k := 0; shape && k < nb; k++ {
				shape = len(a.CW[k]) == 18 && bytes.Equal(a.CW[k], b.CW[k])
			}
			for k := 0; shape && k < ex; k++ {
				shape = a.FinalCW[k] == b.FinalCW[k]
			}
			d.Check(shape && a.TInit != b.TInit, "the two keys for a target of %d bits do not have one shape", nb)
			d.Check(!seeds[string(a.SInit)] && !seeds[string(b.SInit)] && !bytes.Equal(a.SInit, b.SInit), "a private seed is used twice")
			seeds[string(a.SInit)] = true
			seeds[string(b.SInit)] = true
			x := make([]byte, 16)
			for k := range x {
				x[k] = a.SInit[k] ^ b.SInit[k]
			}
			d.Check(!seeds[string(x)], "the private seeds of the two keys are related")
			seeds[string(x)] = true
			total++
			ones += int(a.TInit)
		})
	}
	d.Check(total < 60 || ones > 0 && ones < total, "the control bit of the first key is the same in %d queries", total)
}
