package verifreplay

import (
	"bytes"
	"encoding/binary"
	"testing"
	"time"

	"github.com/si-co/vpir-code/lib/merkle"
	vc "github.com/si-co/vpir-code/verifreplay_common"
	"lukechampine.com/blake3"
)

func h(a, b []byte) []byte {
	x := blake3.Sum256(append(append([]byte{}, a...), b...))
	return x[:]
}

func refRoot(blocks [][]byte) []byte {
	n := 1
	for n < len(blocks) {
		n *= 2
	}
	nodes := make([][]byte, 2*n)
	for i := 0; i < n; i++ {
		if i < len(blocks) {
			ib := make([]byte, 4)
			binary.LittleEndian.PutUint32(ib, uint32(i))
			nodes[n+i] = h(blocks[i], ib)
		} else {
			nodes[n+i] = make([]byte, 32)
		}
	}
	for i := n - 1; i > 0; i-- {
		nodes[i] = h(nodes[2*i], nodes[2*i+1])
	}
	return nodes[1]
}

func TestVerif(t *testing.T) {
	d := vc.New("Merkle trees of every size up to 70 and random larger ones: all proofs, encodings, the root", 20*time.Second)
	defer d.Done()
	// block counts at which the depth changes, exhaustively for the small ones
	for it := 0; d.Rounds(it, 80, 1200); it++ {
		n := it + 1
		if it >= 70 {
			n = d.Pick(127, 128, 129, 255, 256, 257, 511, 512, 513, 1+d.R.Intn(1500), 1024, 1025)
		}
		blocks := make([][]byte, n)
		kind := d.R.Intn(4)
		for i := range blocks {
			switch kind {
			case 0:
				blocks[i] = d.Bytes(32)
			case 1:
				blocks[i] = d.Bytes(d.R.Intn(40))
			case 2: // repeated
				blocks[i] = []byte{byte(d.R.Intn(3))}
			default:
				blocks[i] = d.Bytes(d.Pick(0, 1, 64, 100))
				if i > 0 && d.R.Intn(3) == 0 {
					blocks[i] = blocks[d.R.Intn(i)]
				}
			}
		}
		keep := make([][]byte, n)
		for i := range blocks {
			keep[i] = append([]byte{}, blocks[i]...)
		}
		d.Input("%d blocks, kind %d: %x", n, kind, blocks)
		d.Guard("tree", func() {
			tree, err := merkle.New(blocks)
			if !d.Check(err == nil, "a tree over %d blocks: %v", n, err) {
				return
			}
			root := append([]byte{}, tree.Root()...)
			d.Check(bytes.Equal(root, refRoot(keep)), "the root over %d blocks (kind %d) is not the hash tree over them", n, kind)
			again, _ := merkle.New(keep)
			d.Check(bytes.Equal(root, again.Root()), "two trees over the same %d blocks have different roots", n)
			pl := tree.EncodedProofLength()
			step := 1
			if n > 300 {
				step = 1 + n/100
			}
			for i := 0; i < n; i += step {
				for via := 0; via < 2; via++ {
					var p *merkle.Proof
					var err error
					if via == 0 {
						p, err = tree.GenerateProofAt(uint32(i))
					} else {
						p, err = tree.GenerateProof(blocks[i])
					}
					if !d.Check(err == nil && p != nil, "no proof for block %d of %d (%v)", i, n, err) {
						return
					}
					if via == 0 {
						d.Check(p.Index == uint32(i), "the proof for position %d of %d has index %d", i, n, p.Index)
					} else {
						d.Check(int(p.Index) < n && bytes.Equal(keep[p.Index], keep[i]), "the proof for block %d of %d is for the position %d of another block", i, n, p.Index)
					}
					ok, err := merkle.VerifyProof(keep[i], p, root)
					if !d.Check(ok && err == nil, "the proof for block %d of %d (kind %d) does not verify (%v)", i, n, kind, err) {
						return
					}
					e := merkle.EncodeProof(p)
					d.Check(len(e) == pl, "the encoded proof for block %d of %d has %d bytes, declared %d", i, n, len(e), pl)
					q := merkle.DecodeProof(e)
					if !d.Check(q != nil && q.Index == p.Index && len(q.Hashes) == len(p.Hashes), "the encoded proof for block %d of %d does not decode to its index and number of hashes", i, n) {
						return
					}
					for k := range p.Hashes {
						if !d.Check(bytes.Equal(p.Hashes[k], q.Hashes[k]), "hash %d of the proof for block %d of %d changes in the encoding", k, i, n) {
							return
						}
					}
					ok, _ = merkle.VerifyProof(keep[i], q, root)
					d.Check(ok, "the decoded proof for block %d of %d does not verify", i, n)
					if via == 0 && i%7 == 0 {
						o := d.R.Intn(n)
						if !bytes.Equal(keep[o], keep[i]) {
							ok, _ = merkle.VerifyProof(keep[o], p, root)
							d.Check(!ok, "the proof for block %d of %d verifies block %d", i, n, o)
						}
						if o != i {
							ok, _ = merkle.VerifyProof(keep[i], &merkle.Proof{Hashes: p.Hashes, Index: uint32(o)}, root)
							d.Check(!ok, "the proof for block %d of %d verifies at position %d", i, n, o)
						}
					}
				}
			}
			for i := range blocks {
				if !bytes.Equal(blocks[i], keep[i]) {
					d.Fail("block %d of %d is changed by the tree", i, n)
					break
				}
			}
			d.Check(bytes.Equal(root, tree.Root()), "generating proofs changes the root of %d blocks", n)
			// sensitivity of the root
			i := d.R.Intn(n)
			if n > 1 {
				j := d.R.Intn(n)
				if !bytes.Equal(keep[i], keep[j]) {
					sw := append([][]byte{}, keep...)
					sw[i], sw[j] = sw[j], sw[i]
					o, _ := merkle.New(sw)
					d.Check(!bytes.Equal(o.Root(), root), "swapping the blocks %d and %d of %d keeps the root", i, j, n)
				}
			}
		})
	}
	// arbitrary proofs survive the encoding
	for it := 0; d.Rounds(it, 100, 2000); it++ {
		p := &merkle.Proof{Index: d.R.Uint32()}
		for k := d.R.Intn(33); k > 0; k-- {
			p.Hashes = append(p.Hashes, d.Bytes(32))
		}
		d.Input("proof %v", p)
		d.Guard("encode and decode", func() {
			e := merkle.EncodeProof(p)
			q := merkle.DecodeProof(e)
			ok := q != nil && q.Index == p.Index && len(q.Hashes) == len(p.Hashes)
			for k := 0; ok && k < len(p.Hashes); k++ {
				ok = bytes.Equal(p.Hashes[k], q.Hashes[k])
			}
			d.Check(ok, "a proof with %d hashes and index %d does not survive the encoding", len(p.Hashes), p.Index)
			// malformed encodings are not decoded
			b := e[:d.R.Intn(len(e))]
			d.Check(merkle.DecodeProof(b) == nil, "an encoding cut to %d of %d bytes decodes", len(b), len(e))
			d.Check(merkle.DecodeProof(append(append([]byte{}, e...), d.Bytes(1+d.R.Intn(40))...)) == nil, "an encoding with extra bytes decodes")
		})
	}
	d.Input("no blocks")
	_, err := merkle.New(nil)
	d.Check(err != nil, "a tree over no blocks")
}
