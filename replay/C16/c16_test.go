package verifreplay

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"sort"
	"testing"
	"time"

	"github.com/si-co/vpir-code/lib/database"
	"github.com/si-co/vpir-code/lib/merkle"
	"github.com/si-co/vpir-code/lib/pgp"
	vc "github.com/si-co/vpir-code/verifreplay_common"
	"golang.org/x/crypto/blake2b"
)

func wantIndex(id string, length int) uint32 {
	h := blake2b.Sum256([]byte(id))
	return binary.BigEndian.Uint32(h[:4]) % uint32(length)
}

// content returns bytes with an ending that is hard for the padding
func content(d *vc.Drv, n int) []byte {
	b := d.Bytes(n)
	for i, m := n-1, d.R.Intn(6); i >= 0 && m > 0; i, m = i-1, m-1 {
		b[i] = []byte{0, 0, 0x80, 0x80, 0xc2, 0xff, 1, 0xbf}[d.R.Intn(8)]
	}
	if d.R.Intn(12) == 0 {
		for i := range b {
			b[i] = 0
		}
	}
	return b
}

func spare(d *vc.Drv, b []byte) []byte {
	s := append(make([]byte, 0, len(b)+d.Pick(0, 1, 5, 100)), b...)
	return s
}

func write(keys []*pgp.Key, cut []int, dir string) []string {
	var fs []string
	a := 0
	for i := 0; i <= len(cut); i++ {
		b := len(keys)
		if i < len(cut) {
			b = cut[i]
		}
		f, err := os.Create(filepath.Join(dir, fmt.Sprintf("keys-%d.pgp", i)))
		if err != nil {
			panic(err)
		}
		e := gob.NewEncoder(f)
		for _, k := range keys[a:b] {
			if err := e.Encode(k); err != nil {
				panic(err)
			}
		}
		f.Close()
		fs = append(fs, f.Name())
		a = b
	}
	return fs
}

func TestVerif(t *testing.T) {
	log.SetOutput(io.Discard)
	d := vc.New("padding of random and adversarial contents, hash indices, directories of random keys written to key files", 30*time.Second)
	defer d.Done()

	for n := 0; n < 70 && d.More(); n++ {
		z := make([]byte, n)
		d.Input("unpadding %d zero bytes", n)
		d.Guard("unpadding an all-zero block", func() {
			d.Check(len(database.UnPadBlock(z)) == 0, "unpadding %d zero bytes leaves %x", n, database.UnPadBlock(z))
		})
	}
	d.Guard("unpadding nil", func() { d.Check(len(database.UnPadBlock(nil)) == 0, "unpadding nil leaves something") })
	for i := 0; d.Rounds(i, 3000, 30000); i++ {
		b := content(d, d.Pick(0, 1, 2, 3, 5, 8, 15, 16, 17, 40, 200))
		c := append([]byte{}, b...)
		bl := d.Pick(1, 2, 3, 8, 16, 33)
		d.Input("padding %x to a multiple of %d", b, bl)
		d.Guard("padding", func() {
			p := database.PadBlock(spare(d, b), bl)
			d.Check(len(p)%bl == 0 && len(p) > len(b) && len(p) <= len(b)+1+bl && bytes.Equal(p[:len(b)], c) && p[len(b)] == 0x80 && len(bytes.Trim(p[len(b)+1:], "\x00")) == 0,
				"%x padded to a multiple of %d is %x", b, bl, p)
			u := database.UnPadBlock(p)
			d.Check(bytes.Equal(u, c), "%x padded to a multiple of %d and unpadded is %x", b, bl, u)
			s := database.PadWithSignalByte(spare(d, b))
			d.Check(len(s) == len(b)+1 && bytes.Equal(s[:len(b)], c) && s[len(b)] == 0x80, "%x with signal byte is %x", b, s)
			s = append(s, make([]byte, d.Pick(0, 0, 1, 7, 300))...)
			d.Check(bytes.Equal(database.UnPadBlock(s), c), "%x with signal byte and %d zeros unpadded is %x", b, len(s)-len(b)-1, database.UnPadBlock(s))
		})
	}
	for i := 0; d.Rounds(i, 3000, 30000); i++ {
		id := string(content(d, d.Pick(0, 1, 5, 20, 64, 200)))
		l := d.Pick(1, 1, 2, 3, 7, 10, 100, 256, 65536, 1<<20+1, 1<<31-1)
		d.Input("hash of %x in a table of %d", id, l)
		d.Guard("hash index", func() {
			h := database.HashToIndex(id, l)
			d.Check(h == wantIndex(id, l), "the key %x hashes to %d in a table of %d, want %d", id, h, l, wantIndex(id, l))
		})
	}

	for i := 0; d.Rounds(i, 60, 800); i++ {
		n := d.Pick(10, 11, 19, 20, 25, 39, 40, 41, 50, 99, 100, 160, 170, 250, 410)
		var keys []*pgp.Key
		seen := map[string]bool{}
		big := d.R.Intn(3) == 0
		for len(keys) < n {
			id := fmt.Sprintf("u%d@%x.org", d.R.Intn(3*n), d.Bytes(d.Pick(0, 1)))
			if seen[id] {
				continue
			}
			seen[id] = true
			m := d.Pick(1, 2, 7, 30, 31)
			if big {
				m = d.Pick(1, 100, 512, 1025, 8192)
			}
			keys = append(keys, &pgp.Key{ID: id, Packet: content(d, m)})
		}
		var cut []int
		for c := d.R.Intn(3); c > 0; c-- {
			cut = append(cut, d.R.Intn(n+1))
		}
		sort.Ints(cut)
		rebalanced := d.R.Intn(2) == 0
		dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "keys")
		if err != nil {
			t.Fatal(err)
		}
		files := write(keys, cut, dir)
		sorted := append([]*pgp.Key{}, keys...)
		sort.Slice(sorted, func(i, j int) bool { return sorted[i].ID > sorted[j].ID })
		blocks := int(float32(n) * 0.1)
		rows, cols := 1, blocks
		if rebalanced {
			rows = 0
			for rows*rows < blocks {
				rows++
			}
			cols = rows
		}
		table := make([][]byte, rows*cols)
		for _, k := range sorted {
			h := wantIndex(k.ID, rows*cols)
			table[h] = append(table[h], k.Packet...)
		}
		d.Input("directory of %d keys (big packets: %v) in %d files, rebalanced %v", n, big, len(files), rebalanced)
		d.Guard("key directory", func() {
			db, err := database.GenerateRealKeyBytes(files, rebalanced)
			if !d.Check(err == nil, "the directory of %d keys is not built: %v", n, err) {
				return
			}
			directory(d, db, table, rows, cols, n)
			m, err := database.GenerateRealKeyMerkle(files, rebalanced)
			if !d.Check(err == nil, "the Merkle directory of %d keys is not built: %v", n, err) {
				return
			}
			merkleDirectory(d, m, table, rows, cols, n)
		})
		os.RemoveAll(dir)
	}

	d.Input("unreadable key file")
	d.Guard("unreadable key file", func() {
		_, err := database.GenerateRealKeyBytes([]string{filepath.Join(os.Getenv("VERIF_SCRATCH"), "absent")}, false)
		d.Check(err != nil, "a directory is built from a file that does not exist")
		_, err = database.GenerateRealKeyMerkle([]string{filepath.Join(os.Getenv("VERIF_SCRATCH"), "absent")}, false)
		d.Check(err != nil, "a Merkle directory is built from a file that does not exist")
	})
}

func directory(d *vc.Drv, db *database.Bytes, table [][]byte, rows, cols, n int) {
	if !d.Check(db.NumRows == rows && db.NumColumns == cols && len(db.BlockLengths) == rows*cols, "the directory of %d keys is %dx%d with %d lengths, want %dx%d", n, db.NumRows, db.NumColumns, len(db.BlockLengths), rows, cols) {
		return
	}
	off, max := 0, 0
	for b, want := range table {
		l := db.BlockLengths[b]
		if !d.Check(l >= 0 && off+l <= len(db.Entries), "block %d of the directory ends beyond the content", b) {
			return
		}
		blk := db.Entries[off : off+l]
		if l > max {
			max = l
		}
		full := append(append([]byte{}, blk...), make([]byte, max2(0, db.BlockSize-l))...)
		d.Check(bytes.Equal(database.UnPadBlock(full), want), "bucket %d of %d of the directory of %d keys holds %x, want %x", b, len(table), n, blk, want)
		if len(want) > 0 {
			d.Check(l == len(want)+1 && blk[l-1] == 0x80, "bucket %d holding %d bytes has a block of %d", b, len(want), l)
		} else {
			d.Check(l <= 1, "the empty bucket %d has a block of %d", b, l)
		}
		off += l
	}
	d.Check(off == len(db.Entries), "the blocks of the directory hold %d of its %d bytes", off, len(db.Entries))
	d.Check(db.BlockSize >= max, "the directory declares blocks of %d and has one of %d", db.BlockSize, max)
}

func max2(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func merkleDirectory(d *vc.Drv, db *database.Bytes, table [][]byte, rows, cols, n int) {
	if !d.Check(db.NumRows == rows && db.NumColumns == cols && len(db.BlockLengths) == rows*cols && db.PIRType == "merkle" && db.Merkle != nil, "the Merkle directory of %d keys is %dx%d with %d lengths, want %dx%d", n, db.NumRows, db.NumColumns, len(db.BlockLengths), rows, cols) {
		return
	}
	off, max := 0, 0
	for b, want := range table {
		l := db.BlockLengths[b]
		if !d.Check(l >= db.ProofLen+1 && off+l <= len(db.Entries), "block %d of the Merkle directory ends beyond the content", b) {
			return
		}
		blk := append([]byte{}, db.Entries[off:off+l]...)
		if l > max {
			max = l
		}
		if !d.Check(blk[l-1] == 0x80, "block %d of the Merkle directory ends with %x", b, blk[l-1]) {
			return
		}
		un := database.UnPadBlock(append(append([]byte{}, blk...), make([]byte, max2(0, db.BlockSize-l))...))
		if !d.Check(bytes.Equal(un, blk[:l-1]), "block %d of the Merkle directory unpads to %x, want %x", b, un, blk[:l-1]) {
			return
		}
		data, enc := un[:l-1-db.ProofLen], un[l-1-db.ProofLen:]
		d.Check(bytes.Equal(database.UnPadBlock(append([]byte{}, data...)), want), "bucket %d of %d of the Merkle directory of %d keys holds %x, want %x", b, len(table), n, data, want)
		p := merkle.DecodeProof(enc)
		if d.Check(p != nil, "bucket %d of the Merkle directory has no proof", b) {
			d.Check(int(p.Index) == b, "the proof in bucket %d is for %d", b, p.Index)
			ok, err := merkle.VerifyProof(data, p, db.Root)
			d.Check(ok && err == nil, "the proof in bucket %d of %d does not verify: %v", b, len(table), err)
		}
		off += l
	}
	d.Check(off == len(db.Entries), "the blocks of the Merkle directory hold %d of its %d bytes", off, len(db.Entries))
	d.Check(db.BlockSize == max, "the Merkle directory declares blocks of %d and its longest is %d", db.BlockSize, max)
}
