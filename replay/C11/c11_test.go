package verifreplay

import (
	"bytes"
	"crypto"
	"encoding/binary"
	"testing"
	"time"

	"github.com/cloudflare/circl/group"
	"github.com/si-co/vpir-code/lib/client"
	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/server"
	vc "github.com/si-co/vpir-code/verifreplay_common"
)

func enc(e group.Element, n int) []byte {
	b, err := e.MarshalBinaryCompress()
	if err != nil {
		panic(err)
	}
	for len(b) < n {
		b = append(b, 0)
	}
	return b
}

func TestVerif(t *testing.T) {
	d := vc.New("discrete-log scheme: honest retrieval over random and sparse databases, answers of other group elements, manipulated digests", 30*time.Second)
	defer d.Done()
	groups := []group.Group{group.P256, group.P256, group.P384}
	for it := 0; d.Rounds(it, 14, 200); it++ {
		g := groups[it%len(groups)]
		square := d.R.Intn(3) > 0
		n := d.Pick(1, 2, 3, 4, 5, 9, 10, 16, 25, 30)
		den := d.Pick(0, 1, 2, 4)
		tape := make([]byte, 4096)
		for k := range tape {
			tape[k] = byte(d.R.Intn(128)) << 1
			if d.R.Intn(4) < den {
				tape[k] |= 1
			}
		}
		d.Input("database of %d bits in the square layout %v, group %v, %x", n, square, g, tape[:40])
		var db *database.Elliptic
		if !d.Guard("CreateRandomEllipticWithDigest", func() {
			db = database.CreateRandomEllipticWithDigest(&vc.Fixed{B: tape}, n, g, square)
		}) {
			continue
		}
		rows, cols, es := db.NumRows, db.NumColumns, db.ElementSize
		if !d.Check(rows*cols >= n && len(db.Entries) == rows*cols && len(db.SubDigests) == rows*es, "a database of %d bits is %dx%d with %d entries and %d digest bytes", n, rows, cols, len(db.Entries), len(db.SubDigests)) {
			continue
		}
		H := make([]group.Element, cols)
		for j := range H {
			ib := make([]byte, 8)
			binary.LittleEndian.PutUint64(ib, uint64(j))
			H[j] = g.HashToElement(ib, nil)
		}
		dig := make([]group.Element, rows)
		for i := range dig {
			dig[i] = g.Identity()
			for j := 0; j < cols; j++ {
				if db.Entries[i*cols+j] == 1 {
					dig[i].Add(dig[i], H[j])
				}
			}
			d.Check(bytes.Equal(db.SubDigests[i*es:(i+1)*es], enc(dig[i], es)), "digest of row %d of %dx%d is not the product of its columns' elements", i, rows, cols)
		}
		s := server.NewDH(db)
		c := client.NewDH(vc.NewTape(d.R.Int63()), &db.Info)
		for rep := 0; rep < 3; rep++ {
			idx := d.R.Intn(rows * cols)
			ix := idx / cols
			d.Input("%dx%d (set bits %d/4) index %d group %v", rows, cols, den, idx, g)
			var ans []byte
			ok := d.Guard("honest retrieval", func() {
				q, err := c.QueryBytes(idx)
				if !d.Check(err == nil && len(q) == cols*es, "QueryBytes: %v, %d bytes", err, len(q)) {
					return
				}
				a, err := s.AnswerBytes(q)
				if !d.Check(err == nil && len(a) == rows*es, "AnswerBytes: %v, %d bytes for %d rows of %d", err, len(a), rows, es) {
					return
				}
				ans = a
				r, err := c.ReconstructBytes(append([]byte{}, a...))
				b, _ := r.(byte)
				d.Check(err == nil && b == db.Entries[idx], "honest answer for index %d of %dx%d (group %v): %v, %v; the bit is %d", idx, rows, cols, g, r, err, db.Entries[idx])
			})
			if !ok || ans == nil {
				continue
			}
			rec := func(what string, a []byte, must string, bit byte) {
				d.Input("%s: %dx%d index %d answer %x", what, rows, cols, idx, a)
				d.Guard(what, func() {
					r, err := c.ReconstructBytes(append([]byte{}, a...))
					b, isByte := r.(byte)
					switch must {
					case "reject":
						d.Check(err != nil, "%s (%dx%d, index %d): accepted as %v", what, rows, cols, idx, r)
					case "accept":
						d.Check(err == nil && isByte && b == bit, "%s (%dx%d, index %d): %v, %v, expected %d", what, rows, cols, idx, r, err, bit)
					}
				})
			}
			set := func(i int, e group.Element) []byte {
				a := append([]byte{}, ans...)
				copy(a[i*es:(i+1)*es], enc(e, es))
				return a
			}
			get := func(i int) group.Element {
				e, err := database.UnmarshalGroupElement(ans[i*es:(i+1)*es], g)
				if err != nil {
					panic(err)
				}
				return e
			}
			i := d.R.Intn(rows)
			rec("a random group element in one row", set(i, g.RandomElement(vc.NewTape(d.R.Int63()))), "reject", 0)
			rec("the answer of one row plus the generator", set(i, g.NewElement().Add(get(i), g.Generator())), "reject", 0)
			// only the last or the requested row
			rec("a random group element in the last row", set(rows-1, g.RandomElement(vc.NewTape(d.R.Int63()))), "reject", 0)
			rec("a random group element in the requested row", set(ix, g.RandomElement(vc.NewTape(d.R.Int63()))), "reject", 0)
			if !get(i).IsIdentity() {
				rec("the identity in a row that has another answer", set(i, g.Identity()), "", 0)
				neg := g.NewElement().Neg(get(i))
				if !neg.IsEqual(get(i)) {
					rec("the inverse in one row", set(i, neg), "reject", 0)
				}
			}
			for k := 0; k < rows; k++ {
				if k != i && !dig[k].IsEqual(dig[i]) {
					// the answer of another row: differs by r*(dig k - dig i) and possibly the blinding
					rec("the answer of another row", set(i, get(k)), "reject", 0)
					break
				}
			}
			rec("an answer that is one element short", ans[:(rows-1)*es], "reject", 0)
			rec("an answer with one element more", append(append([]byte{}, ans...), enc(g.Generator(), es)...), "reject", 0)
			rec("an answer that is cut inside an element", ans[:len(ans)-1], "reject", 0)
			rec("an empty answer", nil, "reject", 0)
			a := append([]byte{}, ans...)
			a[d.R.Intn(len(a))] ^= byte(1 << uint(d.R.Intn(8)))
			rec("one modified bit", a, "", 0)
			// exact acceptance: needs the secret and the blinding of this query
			ht, _ := vc.Field(c, "state", "ht").(group.Element)
			r, _ := vc.Field(c, "state", "r").(group.Scalar)
			if ht != nil && r != nil && !ht.IsIdentity() {
				all := make([]byte, 0, len(ans))
				var bit byte
				badRow := -1
				if d.R.Intn(2) == 0 {
					badRow = d.R.Intn(rows)
				}
				for k := 0; k < rows; k++ {
					e := g.NewElement().Mul(dig[k], r)
					b := byte(d.R.Intn(2))
					if b == 1 {
						e.Add(e, ht)
					}
					if k == badRow {
						switch d.R.Intn(3) {
						case 0:
							e.Add(e, ht)
							if b == 0 {
								e.Add(e, ht)
							}
						case 1:
							e.Add(e, g.NewElement().Neg(ht))
							if b == 1 {
								e.Add(e, g.NewElement().Neg(ht))
							}
						default:
							e.Add(e, H[d.R.Intn(cols)])
						}
					}
					if k == ix {
						bit = b
					}
					all = append(all, enc(e, es)...)
				}
				if badRow >= 0 {
					rec("all rows consistent but one", all, "reject", 0)
				} else {
					rec("all rows consistent with the digest", all, "accept", bit)
				}
			}
			// digest of one row replaced after the client was made, with the hash kept
		}
		// inconsistent information is refused
		bad := db.Info
		au := *db.Auth
		bad.Auth = &au
		au.SubDigests = append([]byte{}, db.SubDigests...)
		au.Digest = append([]byte{}, db.Digest...)
		what := "a modified row digest"
		switch d.R.Intn(4) {
		case 0:
			au.SubDigests[d.R.Intn(len(au.SubDigests))] ^= 1
		case 1:
			au.Digest[d.R.Intn(len(au.Digest))] ^= byte(1 << uint(d.R.Intn(8)))
			what = "a modified global digest"
		case 2:
			au.SubDigests = append(au.SubDigests, 0)
			what = "an additional digest byte"
		default:
			au.Digest = au.Digest[:d.R.Intn(len(au.Digest))]
			what = "a shortened global digest"
		}
		d.Input("%s", what)
		d.Check(vc.Panics(func() { client.NewDH(vc.NewTape(1), &bad) }) != nil, "the client accepts database information with %s", what)
		h := crypto.BLAKE2b_256.New()
		h.Write(db.SubDigests)
		d.Check(bytes.Equal(h.Sum(nil), db.Digest), "the global digest of the database is not the hash of its row digests")
	}
}
