package verifreplay

import (
	"encoding/binary"
	"strings"
	"testing"
	"time"

	"github.com/nikirill/go-crypto/openpgp/packet"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/query"
	"github.com/si-co/vpir-code/lib/server"
	vc "github.com/si-co/vpir-code/verifreplay_common"
)

type cli interface {
	QueryBytes([]byte, int) ([][]byte, error)
	ReconstructBytes([][]byte) (interface{}, error)
	Query(*query.ClientFSS, int) []*query.FSS
	Reconstruct([][]uint32) (uint32, error)
}
type srv interface {
	AnswerBytes([]byte) ([]byte, error)
	Answer(*query.FSS) []uint32
}

func TestVerif(t *testing.T) {
	d := vc.New("predicate queries over random key databases against a direct count", 25*time.Second)
	defer d.Done()
	algos := []packet.PublicKeyAlgorithm{1, 16, 17, 18, 19, 2, 3, 22}
	stems := []string{"alice", "bob", "epflx", "a", "", "al", "eve.eve", "\x00", "zz\xff", "äö"}
	doms := []string{"@epfl.ch", "@mit.edu", "@x.edu", ".edu", "", "@h\x00.ch", "@epfl.cH"}
	for it := 0; d.Rounds(it, 80, 3000); it++ {
		nk := d.Pick(0, 1, 2, 3, 5, 9, 20)
		if it%50 == 49 {
			nk = 150
		}
		db := &database.DB{Info: database.Info{NumColumns: nk, NumRows: d.Pick(0, 1), BlockSize: d.Pick(0, 1)}}
		y0 := time.Now().Year()
		for i := 0; i < nk; i++ {
			em := stems[d.R.Intn(len(stems))] + doms[d.R.Intn(len(doms))]
			if d.R.Intn(5) == 0 {
				em = string(d.Bytes(d.R.Intn(12)))
			}
			y := d.Pick(1970, 1999, 2000, 2015, 2019, 2018, y0-1, y0, y0+1, y0+80, 2019, 2018)
			ct := time.Date(y, time.Month(1+d.R.Intn(12)), 1+d.R.Intn(27), d.R.Intn(24), d.R.Intn(60), d.R.Intn(60), 0, time.UTC)
			if d.R.Intn(3) == 0 {
				ct = time.Date(y, 0, 0, 0, 0, 0, 0, time.UTC)
			}
			if d.R.Intn(6) == 0 {
				ct = time.Date(y, 6, 15, 3, 0, 0, d.R.Intn(1e9), time.FixedZone("x", 3600*d.Pick(-5, 2, 9)))
			}
			db.KeysInfo = append(db.KeysInfo, &database.KeyInfo{UserId: &packet.UserId{Email: em}, CreationTime: ct, PubKeyAlgo: algos[d.R.Intn(len(algos))]})
		}
		pick := func() *database.KeyInfo {
			if nk == 0 {
				return &database.KeyInfo{UserId: &packet.UserId{Email: "alice@epfl.ch"}, CreationTime: time.Date(2018, 0, 0, 0, 0, 0, 0, time.UTC), PubKeyAlgo: 1}
			}
			return db.KeysInfo[d.R.Intn(nk)]
		}
		var q *query.Info
		var cq *query.ClientFSS
		var match func(k *database.KeyInfo) bool
		avg := false
		what := ""
		// the email part of a predicate
		email := func(q *query.Info) (string, func(e string) bool) {
			e := pick().UserId.Email
			if d.R.Intn(6) == 0 {
				e = "nobody@nowhere.org"
			}
			switch m := d.R.Intn(3); {
			case m == 0 && len(e) > 0:
				q.FromStart = 1 + d.R.Intn(len(e))
				e = e[:q.FromStart]
				return e, func(x string) bool { return strings.HasPrefix(x, e) }
			case m == 1 && len(e) > 0:
				q.FromEnd = 1 + d.R.Intn(len(e))
				e = e[len(e)-q.FromEnd:]
				return e, func(x string) bool { return strings.HasSuffix(x, e) }
			}
			return e, func(x string) bool { return x == e }
		}
		switch it % 5 {
		case 0:
			q = &query.Info{Target: query.UserId}
			e, f := email(q)
			cq = q.ToEmailClientFSS(e)
			match = func(k *database.KeyInfo) bool { return f(k.UserId.Email) }
			what = "email " + e
		case 1:
			q = &query.Info{Target: query.PubKeyAlgo}
			n := []string{"RSA", "ElGamal", "DSA", "ECDH", "ECDSA"}
			a := []packet.PublicKeyAlgorithm{packet.PubKeyAlgoRSA, packet.PubKeyAlgoElGamal, packet.PubKeyAlgoDSA, packet.PubKeyAlgoECDH, packet.PubKeyAlgoECDSA}
			i := d.R.Intn(5)
			cq = q.ToPKAClientFSS(n[i])
			match = func(k *database.KeyInfo) bool { return k.PubKeyAlgo == a[i] }
			what = "algorithm " + n[i]
		case 2:
			q = &query.Info{Target: query.CreationTime}
			y := pick().CreationTime.Year()
			if d.R.Intn(2) == 0 {
				y++
			}
			cq = q.ToCreationTimeClientFSS(itoa(y))
			ref := time.Date(y, 0, 0, 0, 0, 0, 0, time.UTC)
			match = func(k *database.KeyInfo) bool {
				a, _ := k.CreationTime.MarshalBinary()
				b, _ := ref.MarshalBinary()
				return string(a) == string(b)
			}
			what = "creation time " + ref.String()
		case 3:
			q = &query.Info{And: true, Target: query.Target(d.R.Intn(3)), Targets: []query.Target{query.UserId, query.CreationTime}}
			e, f := email(q)
			y := pick().CreationTime.Year()
			if d.R.Intn(2) == 0 { // the year the library asks for
				cq = q.ToAndClientFSS(e)
				y = 2018
			} else {
				yb := make([]byte, 4)
				binary.BigEndian.PutUint32(yb, uint32(y))
				id, _ := q.IdForEmail(e)
				cq = &query.ClientFSS{Info: q, Input: append(bits(yb), id...)}
			}
			match = func(k *database.KeyInfo) bool { return k.CreationTime.Year() == y && f(k.UserId.Email) }
			what = "year " + itoa(y) + " and email " + e
		case 4:
			avg = true
			q = &query.Info{And: true, Avg: true, Target: query.Target(d.R.Intn(3))}
			e, f := email(q)
			cq = q.ToAvgClientFSS(e)
			match = func(k *database.KeyInfo) bool { return f(k.UserId.Email) }
			what = "average over email " + e
		}
		var cnt, sum, kn int
		for _, k := range db.KeysInfo {
			kn++
			if match(k) && (!avg || y0 >= k.CreationTime.Year()) {
				cnt++
				sum += y0 - k.CreationTime.Year()
			}
		}
		auth := d.R.Intn(2) == 0
		ser := d.R.Intn(2) == 0
		d.Input("%q (from start %d, from end %d), authenticated %v, bytes %v, keys %s", what, q.FromStart, q.FromEnd, auth, ser, desc(db))
		d.Guard("predicate query "+what, func() {
			var c cli
			var s [2]srv
			for k := range s {
				if auth {
					s[k] = server.NewPredicateAPIR(db, byte(k), d.Pick(1, 4))
				} else {
					s[k] = server.NewPredicatePIR(db, byte(k))
				}
			}
			tp := vc.NewTape(d.R.Int63())
			if auth {
				c = client.NewPredicateAPIR(tp, &db.Info)
			} else {
				c = client.NewPredicatePIR(tp, &db.Info)
			}
			for round := 0; round < 2; round++ { // the same client and servers again
				var got interface{}
				var err error
				if ser {
					in, e := cq.Encode()
					if !d.Check(e == nil, "encoding the query: %v", e) {
						return
					}
					qs, e := c.QueryBytes(in, 2)
					if !d.Check(e == nil && len(qs) == 2, "QueryBytes: %v", e) {
						return
					}
					a := make([][]byte, 2)
					for k := range a {
						if a[k], e = s[k].AnswerBytes(qs[k]); !d.Check(e == nil, "AnswerBytes: %v", e) {
							return
						}
					}
					got, err = c.ReconstructBytes(a)
				} else {
					qs := c.Query(cq, 2)
					a := [][]uint32{s[0].Answer(qs[0]), s[1].Answer(qs[1])}
					got, err = c.Reconstruct(a)
				}
				if time.Now().Year() != y0 {
					return
				}
				v, _ := got.(uint32)
				if avg {
					if cnt == 0 {
						d.Check(err != nil, "%q over %s: no key matches but the answer is %v", what, desc(db), got)
					} else {
						d.Check(err == nil && int(v) == sum/cnt, "%q (from start %d, from end %d, authenticated %v) over %s: %v, %v instead of %d/%d", what, q.FromStart, q.FromEnd, auth, desc(db), got, err, sum, cnt)
					}
				} else {
					d.Check(err == nil && int(v) == cnt, "%q (from start %d, from end %d, authenticated %v) over %s: %v, %v instead of %d", what, q.FromStart, q.FromEnd, auth, desc(db), got, err, cnt)
				}
			}
		})
	}
}

func bits(b []byte) []bool {
	var r []bool
	for _, x := range b {
		for k := 7; k >= 0; k-- {
			r = append(r, x>>uint(k)&1 == 1)
		}
	}
	return r
}

func itoa(n int) string {
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

func desc(db *database.DB) string {
	s := ""
	for i, k := range db.KeysInfo {
		if i < 6 {
			s += "[" + k.UserId.Email + " " + k.CreationTime.Format(time.RFC3339) + " " + itoa(int(k.PubKeyAlgo)) + "]"
		}
	}
	return itoa(len(db.KeysInfo)) + " keys " + s
}
