// Merkle trees: lib/merkle. Strings are compared by their content: sid(x) is a
// function of the bytes of x, id32 of the 32 bytes of a hash. The hash of a
// pair of strings is an abstract function of the two.

pred id32(lo, hi) := uf("s32", lo, hi)
pred sid(x) := ite(len(x) == 32, uf("s32", u128le(x, 0), u128le(x, 16)), ite(len(x) == 4, uf("s4", u32le(x, 0)), uf("str", seq(x), len(x))))
// the hash with number h, as a string
pred hsh(h) := uf("s32", uf128("hlo", h), uf128("hhi", h))

iface merkle.HashType.Hash(h, a, b)
  fresh result
  ensures len(result) == 32 && u128le(result, 0) == uf128("hlo", uf("hid", sid(a), sid(b))) && u128le(result, 16) == uf128("hhi", uf("hid", sid(a), sid(b)))

assume merkle.BLAKE3.Hash(h, a, b)
  fresh result
  ensures len(result) == 32 && u128le(result, 0) == uf128("hlo", uf("hid", sid(a), sid(b))) && u128le(result, 16) == uf128("hhi", uf("hid", sid(a), sid(b)))

iface merkle.HashType.HashLength(h)
  ensures result == 32

func merkle.indexToBytes(i)
  prop C04 C03
  requires 0 <= i && i < pow2(32)
  fresh result
  ensures len(result) == 4 && u32le(result, 0) == i

// the node c levels above x
rec anc(x int, c int) int :=
    ite(c <= 0, x, anc(x, c-1)/2)

// what the hashes hs fold to when they accompany the node x with hash leaf
rec pid(lo u128s, hi u128s, x int, leaf int, n int) int :=
    ite(n <= 0, leaf, ite(anc(x, n-1)%2 == 0, uf("hid", hsh(pid(lo, hi, x, leaf, n-1)), id32(lo[n-1], hi[n-1])), uf("hid", id32(lo[n-1], hi[n-1]), hsh(pid(lo, hi, x, leaf, n-1)))))

lemma pid_ext(lo u128s, hi u128s, ro u128s, ri u128s, x int, y int, leaf int, other int, m int, n int)
  requires n == m && x == y && leaf == other && forall(k, 0, n, lo[k] == ro[k] && hi[k] == ri[k])
  induct n m
  trigger pid(lo, hi, x, leaf, n), pid(ro, ri, y, other, m)
  ensures pid(lo, hi, x, leaf, n) == pid(ro, ri, y, other, m)

pred leafid(data, i) := uf("hid", sid(data), uf("s4", i))
pred proofpos(proof) := (proof.Index + pow2(len(proof.Hashes))) % pow2(32)
pred foldid(data, proof, n) := pid(lam(k, u128le(proof.Hashes[k], 0)), lam(k, u128le(proof.Hashes[k], 16)), proofpos(proof), leafid(data, proof.Index), n)
pred proofid(data, proof) := foldid(data, proof, len(proof.Hashes))

func merkle.generateProofHash(data, proof, hashType)
  prop C04 C03
  requires forall(k, 0, len(proof.Hashes), len(proof.Hashes[k]) == 32)
  inv [i iter, x uint32]: x == anc(proofpos(proof), i)
  inv [i iter, h []byte]: len(h) == 32 && u128le(h, 0) == uf128("hlo", foldid(data, proof, i)) && u128le(h, 16) == uf128("hhi", foldid(data, proof, i))
  fresh result
  ensures len(result) == 32
  ensures u128le(result, 0) == uf128("hlo", proofid(data, proof)) && u128le(result, 16) == uf128("hhi", proofid(data, proof))

func merkle.VerifyProofUsing(data, proof, root, hashType)
  prop C04 C03
  requires forall(k, 0, len(proof.Hashes), len(proof.Hashes[k]) == 32)
  ensures result1 == nil
  ensures iff(result0, len(root) == 32 && u128le(root, 0) == uf128("hlo", proofid(data, proof)) && u128le(root, 16) == uf128("hhi", proofid(data, proof)))

func merkle.VerifyProof(data, proof, root)
  prop C04 C03
  requires forall(k, 0, len(proof.Hashes), len(proof.Hashes[k]) == 32)
  ensures result1 == nil
  ensures iff(result0, len(root) == 32 && u128le(root, 0) == uf128("hlo", proofid(data, proof)) && u128le(root, 16) == uf128("hhi", proofid(data, proof)))

func merkle.DecodeProof(p)
  prop C04 C03
  requires len(p) < pow2(32)
  ensures iff(result == nil, len(p) < 8 || len(p) != 8+32*u32le(p, 0))
  ensures imp(result != nil, len(result.Hashes) == u32le(p, 0) && result.Index == u32le(p, len(p)-4))
  ensures imp(result != nil, forall(k, 0, len(result.Hashes), len(result.Hashes[k]) == 32))
  ensures imp(result != nil, forall(k, 0, len(result.Hashes), u128le(result.Hashes[k], 0) == u128le(p, 4+32*k)))
  ensures imp(result != nil, forall(k, 0, len(result.Hashes), u128le(result.Hashes[k], 16) == u128le(p, 20+32*k)))

func merkle.EncodeProof(p)
  prop C04 C03 C15
  requires len(p.Hashes) < pow2(32)
  requires forall(k, 0, len(p.Hashes), len(p.Hashes[k]) == 32)
  inv [i iter, o mod:[]byte]: u32le(o, 0) == len(p.Hashes)
  inv [i iter, o mod:[]byte]: forall(k, 0, i, forall(j, 0, 32, o[4+32*k+j] == p.Hashes[k][j]))
  fresh result
  ensures len(result) == 8+32*len(p.Hashes)
  ensures u32le(result, 0) == len(p.Hashes)
  ensures u32le(result, len(result)-4) == p.Index
  ensures forall(k, 0, len(p.Hashes), forall(j, 0, 32, result[4+32*k+j] == p.Hashes[k][j]))

assume merkle.NewBLAKE3()
  fresh result
  ensures result != nil

// A tree with 2^d leaves has the nodes 1 (root) to 2^(d+1)-1 (last leaf).
pred depthOf(t) := clog2(len(t.nodes)/2)
pred shaped(t) := 2 <= len(t.nodes) && len(t.nodes) <= pow2(32) && len(t.nodes) == 2*pow2(clog2(len(t.nodes)/2))
pred sib(x) := x+1-2*(x%2)
pred nlo(t, k) := u128le(t.nodes[k], 0)
pred nhi(t, k) := u128le(t.nodes[k], 16)

func merkle.MerkleTree.depth(t)
  prop C04 C15
  requires shaped(t)
  ensures result == depthOf(t)

iface merkle.HashType.HashLength(h)
  ensures result == 32

func merkle.MerkleTree.EncodedProofLength(t)
  prop C04 C15
  requires shaped(t)
  ensures result == 8+32*depthOf(t)

func merkle.MerkleTree.Root(t)
  prop C04 C15
  requires shaped(t)
  ensures same(result, t.nodes[1])

func merkle.MerkleTree.GenerateProofAt(t, index)
  prop C04 C15
  requires shaped(t)
  requires forall(k, 1, len(t.nodes), len(t.nodes[k]) == 32)
  inv [i iter, x uint32]: x == anc(index+len(t.nodes)/2, i)
  inv [i iter, x uint32]: i <= depthOf(t) && pow2(depthOf(t)-i) <= x && x < 2*pow2(depthOf(t)-i)
  inv [i iter, h [][]byte]: forall(k, 0, i, same(h[k], t.nodes[sib(anc(index+len(t.nodes)/2, k))]))
  fresh result0 if result1 == nil
  ensures iff(result1 == nil, index < len(t.nodes)/2)
  ensures imp(result1 == nil, result0.Index == index && len(result0.Hashes) == depthOf(t))
  ensures imp(result1 == nil, forall(k, 0, len(result0.Hashes), len(result0.Hashes[k]) == 32))
  ensures imp(result1 == nil, forall(k, 0, depthOf(t), same(result0.Hashes[k], t.nodes[sib(anc(index+len(t.nodes)/2, k))])))

assume hash/fnv.New64a()
  fresh result
  ensures result != nil
iface hash.Hash64.Write(h, p)
  ensures result0 == len(p) && result1 == nil
iface hash.Hash64.Sum64(h)
  ensures true
iface hash.Hash64.Reset(h)
  ensures true

// the digest of a node is the hash of its children
pred hashed(lo, hi, a, b) := lo == uf128("hlo", uf("hid", a, b)) && hi == uf128("hhi", uf("hid", a, b))

func merkle.NewUsing(data, hash)
  prop C04 C15 C03
  requires len(data) <= pow2(31)
  ensures iff(result1 == nil, len(data) > 0)
  ensures imp(result1 == nil, shaped(result0) && len(result0.nodes) == 2*pow2(clog2(len(data))))
  ensures imp(result1 == nil, forall(k, 1, len(result0.nodes), len(result0.nodes[k]) == 32))
  ensures imp(result1 == nil, forall(k, 0, len(data), hashed(nlo(result0, pow2(clog2(len(data)))+k), nhi(result0, pow2(clog2(len(data)))+k), sid(data[k]), uf("s4", k))))
  ensures imp(result1 == nil, forall(k, len(data), pow2(clog2(len(data))), nlo(result0, pow2(clog2(len(data)))+k) == 0 && nhi(result0, pow2(clog2(len(data)))+k) == 0))
  ensures imp(result1 == nil, forall(k, 1, pow2(clog2(len(data))), hashed(nlo(result0, k), nhi(result0, k), id32(nlo(result0, 2*k), nhi(result0, 2*k)), id32(nlo(result0, 2*k+1), nhi(result0, 2*k+1)))))

func merkle.New(data)
  prop C04 C15
  requires len(data) <= pow2(31)
  ensures iff(result1 == nil, len(data) > 0)
  ensures imp(result1 == nil, shaped(result0) && len(result0.nodes) == 2*pow2(clog2(len(data))))
  ensures imp(result1 == nil, forall(k, 1, len(result0.nodes), len(result0.nodes[k]) == 32))

// the ancestors of a node of the level d
lemma anc_level(x int, d int, n int)
  requires pow2(d) <= x && x < 2*pow2(d) && 0 <= n && n <= d
  induct n
  trigger anc(x, n), pow2(d)
  ensures pow2(d-n) <= anc(x, n) && anc(x, n) < 2*pow2(d-n)

// In a tree of hashes (lo, hi) the siblings (plo, phi) along the path of a leaf
// fold to the nodes of the path.
lemma path(lo u128s, hi u128s, plo u128s, phi u128s, x int, leaf int, d int, n int)
  requires pow2(d) <= x && x < 2*pow2(d) && 0 <= n && n <= d
  requires forall(k, 1, pow2(d), hashed(lo[k], hi[k], id32(lo[2*k], hi[2*k]), id32(lo[2*k+1], hi[2*k+1])))
  requires forall(k, 0, d, plo[k] == lo[sib(anc(x, k))] && phi[k] == hi[sib(anc(x, k))])
  requires lo[x] == uf128("hlo", leaf) && hi[x] == uf128("hhi", leaf)
  uses anc_level
  induct n
  ensures lo[anc(x, n)] == uf128("hlo", pid(plo, phi, x, leaf, n)) && hi[anc(x, n)] == uf128("hhi", pid(plo, phi, x, leaf, n))

// The proof of every block verifies against the root.
theorem merkle_complete(data [][]byte, hash merkle.HashType, index uint32)
  prop C04
  uses anc_level
  requires index < len(data)
  requires len(data) <= pow2(31)
  call t, err := merkle.NewUsing(data, hash)
  call p, perr := merkle.MerkleTree.GenerateProofAt(t, index)
  apply path(lam(k, nlo(t, k)), lam(k, nhi(t, k)), lam(k, u128le(p.Hashes[k], 0)), lam(k, u128le(p.Hashes[k], 16)), index+pow2(clog2(len(data))), leafid(data[index], index), clog2(len(data)), clog2(len(data)))
  ensures p.Index == index && len(p.Hashes) == clog2(len(data))
  ensures proofpos(p) == index+pow2(clog2(len(data)))
  ensures 1 <= anc(index+pow2(clog2(len(data))), clog2(len(data))) && anc(index+pow2(clog2(len(data))), clog2(len(data))) <= 1
  call root := merkle.MerkleTree.Root(t)
  ensures len(root) == 32 && u128le(root, 0) == uf128("hlo", proofid(data[index], p)) && u128le(root, 16) == uf128("hhi", proofid(data[index], p))
  call ok, verr := merkle.VerifyProofUsing(data[index], p, root, hash)
  ensures ok
  ensures err == nil && perr == nil
  ensures verr == nil

// The encoding of a proof of a tree has the declared length and decodes to it.
theorem merkle_roundtrip(t *merkle.MerkleTree, index uint32)
  prop C04 C15
  requires shaped(t)
  requires forall(k, 1, len(t.nodes), len(t.nodes[k]) == 32)
  requires index < len(t.nodes)/2
  call p, perr := merkle.MerkleTree.GenerateProofAt(t, index)
  call n := merkle.MerkleTree.EncodedProofLength(t)
  call e := merkle.EncodeProof(p)
  ensures len(e) == n
  call q := merkle.DecodeProof(e)
  ensures q != nil
  ensures q.Index == p.Index && len(q.Hashes) == len(p.Hashes)
  ensures forall(k, 0, len(p.Hashes), u128le(q.Hashes[k], 0) == u128le(p.Hashes[k], 0))
  ensures forall(k, 0, len(p.Hashes), u128le(q.Hashes[k], 16) == u128le(p.Hashes[k], 16))


// No collision on the path: where step k of folding a proof gives the digest of
// a node of the tree, its inputs are the digests of the children of the node.
pred nocollision(lo, hi, plo, phi, x, leaf, k) := imp(lo[anc(x, k+1)] == uf128("hlo", pid(plo, phi, x, leaf, k+1)) && hi[anc(x, k+1)] == uf128("hhi", pid(plo, phi, x, leaf, k+1)), ite(anc(x, k)%2 == 0, uf128("hlo", pid(plo, phi, x, leaf, k)) == lo[2*anc(x, k+1)] && uf128("hhi", pid(plo, phi, x, leaf, k)) == hi[2*anc(x, k+1)], uf128("hlo", pid(plo, phi, x, leaf, k)) == lo[2*anc(x, k+1)+1] && uf128("hhi", pid(plo, phi, x, leaf, k)) == hi[2*anc(x, k+1)+1]))

// A proof that folds to the root folds from the digest of the leaf in the tree,
// unless there is a collision.
lemma binding(lo u128s, hi u128s, plo u128s, phi u128s, x int, leaf int, d int, m int)
  requires pow2(d) <= x && x < 2*pow2(d) && 0 <= m && m <= d
  requires forall(k, 0, d, nocollision(lo, hi, plo, phi, x, leaf, k))
  requires lo[1] == uf128("hlo", pid(plo, phi, x, leaf, d)) && hi[1] == uf128("hhi", pid(plo, phi, x, leaf, d))
  uses anc_level
  induct m
  ensures lo[anc(x, d-m)] == uf128("hlo", pid(plo, phi, x, leaf, d-m)) && hi[anc(x, d-m)] == uf128("hhi", pid(plo, phi, x, leaf, d-m))

// Entry of the Merkle database: a block of w bytes, an encoded proof with the
// depth of the tree and the padding byte, at x[o].
pred entrysize(t, w) := w+8+32*depthOf(t)+1
pred entryblock(x, o, block, w) := forall(j, 0, w, x[o+j] == block[j])
pred entryhead(x, o, w, t) := u32le(x, o+w) == depthOf(t) && x[o+w+8+32*depthOf(t)] == 0x80

func database.generateMerkleProofs(data, begin, t, blockLen, reply)
  prop C15
  requires shaped(t)
  requires forall(k, 1, len(t.nodes), len(t.nodes[k]) == 32)
  requires begin >= 0 && begin+len(data) <= len(t.nodes)/2
  requires blockLen >= entrysize(t, 0)
  requires forall(k, 0, len(data), len(data[k]) == blockLen-entrysize(t, 0) && cap(data[k]) == len(data[k]))
  requires sent(reply) == 0 && received(reply) == 0 && closed(reply) == 0
  inv [i iter, r []byte]: len(r) == i*blockLen
  inv [i iter, r []byte]: forall(b, 0, i, entryblock(r, b*blockLen, data[b], blockLen-entrysize(t, 0)))
  inv [i iter, r []byte]: forall(b, 0, i, entryhead(r, b*blockLen, blockLen-entrysize(t, 0), t))
  modifies chan reply
  ensures sent(reply) == 1 && received(reply) == 0 && closed(reply) == 0 && len(msg(reply, 0)) == len(data)*blockLen
  ensures forall(b, 0, len(data), entryblock(msg(reply, 0), b*blockLen, data[b], blockLen-entrysize(t, 0)))
  ensures forall(b, 0, len(data), entryhead(msg(reply, 0), b*blockLen, blockLen-entrysize(t, 0), t))

func database.makeMerkleEntries(blocks, tree, nRows, nColumns, blockLen)
  prop C15
  requires shaped(tree)
  requires forall(k, 1, len(tree.nodes), len(tree.nodes[k]) == 32)
  requires nRows >= 0 && nColumns >= 0 && nRows*nColumns <= len(blocks) && len(blocks) <= len(tree.nodes)/2
  requires blockLen >= entrysize(tree, 0)
  requires forall(k, 0, len(blocks), len(blocks[k]) == blockLen-entrysize(tree, 0) && cap(blocks[k]) == len(blocks[k]))
  fresh result
  ensures len(result) == nRows*nColumns*blockLen
  ensures forall(b, 0, nRows*nColumns, entryblock(result, b*blockLen, blocks[b], blockLen-entrysize(tree, 0)))
  ensures forall(b, 0, nRows*nColumns, entryhead(result, b*blockLen, blockLen-entrysize(tree, 0), tree))

pred mblocks(dbLen, blockLen) := dbLen/(8*blockLen)
pred msize(dbLen, blockLen) := blockLen+9+32*clog2(mblocks(dbLen, blockLen))

func database.CreateRandomMerkle(rnd, dbLen, numRows, blockLen)
  prop C15
  option readok
  requires numRows >= 1 && blockLen >= 1 && dbLen >= 8*blockLen && mblocks(dbLen, blockLen) < pow2(31)
  modifies heap("G:pos", rnd)
  ensures constdb(result, numRows, mblocks(dbLen, blockLen)/numRows, msize(dbLen, blockLen), msize(dbLen, blockLen))
  ensures result.Merkle.ProofLen == 8+32*clog2(mblocks(dbLen, blockLen))
  ensures len(result.Entries) == numRows*(mblocks(dbLen, blockLen)/numRows)*msize(dbLen, blockLen)
  ensures forall(b, 0, numRows*(mblocks(dbLen, blockLen)/numRows), forall(j, 0, blockLen, result.Entries[b*(blockLen+result.Merkle.ProofLen+1)+j] == heap("G:tape", rnd)[old(heap("G:pos", rnd)) + b*blockLen + j]))
