// Multi-server point retrieval: lib/client/pir_point.go, lib/client/client.go, lib/server/point.go.

// total length of n blocks from block o on
rec psum(s ints, o int, n int) int := ite(n <= 0, 0, psum(s, o, n-1) + s[o+n-1])

lemma psum_mono(s ints, o int, a int, n int)
  requires 0 <= a && a <= n && forall(k, 0, n, s[o+k] >= 0)
  induct n
  trigger psum(s, o, a), psum(s, o, n)
  ensures psum(s, o, a) <= psum(s, o, n) && imp(a < n, psum(s, o, a) + s[o+a] <= psum(s, o, n))

lemma psum_nonneg(s ints, o int, n int)
  requires forall(k, 0, n, s[o+k] >= 0)
  induct n
  trigger psum(s, o, n)
  ensures psum(s, o, n) >= 0

lemma psum_split(s ints, o int, a int, n int)
  requires a >= 0 && n >= 0
  induct n
  trigger psum(s, o, a), psum(s, o+a, n)
  ensures psum(s, o+a, n) == psum(s, o, a+n) - psum(s, o, a)

// byte b of the exclusive or of the n blocks from block lo on that the query
// selects, the first of which is at eo
rec rowx(e bytes, eo int, l ints, lo int, q bytes, b int, n int) byte :=
    ite(n <= 0, 0, rowx(e, eo, l, lo, q, b, n-1) ^ ite(bit(q, n-1) && b < l[lo+n-1], e[eo+psum(l, lo, n-1)+b], 0))

lemma rowx_ext(e bytes, eo int, l ints, lo int, q bytes, r bytes, b int, n int)
  requires forall(k, 0, (n+7)/8, q[k] == r[k])
  induct n
  trigger rowx(e, eo, l, lo, q, b, n), rowx(e, eo, l, lo, r, b, n)
  ensures rowx(e, eo, l, lo, q, b, n) == rowx(e, eo, l, lo, r, b, n)

func server.xorValues(entries, blockLens, q, out)
  prop C01
  uses psum_mono, psum_nonneg
  requires 8*len(q) >= len(blockLens) && forall(j, 0, len(blockLens), 0 <= blockLens[j] && blockLens[j] <= len(out))
  requires psum(base(blockLens), off(blockLens), len(blockLens)) <= len(entries)
  requires ref(out) != ref(entries) && ref(out) != ref(q)
  inv [j iter, pos int]: pos == psum(base(blockLens), off(blockLens), j)
  inv [j iter]: forall(b, 0, len(out), out[b] == old(out[b]) ^ rowx(base(entries), off(entries), base(blockLens), off(blockLens), seq(q), b, j))
  modifies out[*]
  ensures forall(b, 0, len(out), out[b] == old(out[b]) ^ rowx(base(entries), off(entries), base(blockLens), off(blockLens), seq(q), b, len(blockLens)))

// Two-server queries: distributed point function (dpf-go). What the two keys
// expand to differs exactly at the target.
assume math/bits.Len(x)
  option define
  ensures result == uf("bitlen", x)
  ensures result >= 0 && result <= 64 && pow2(result) > x
  ensures imp(x > 0, result > 0 && pow2(result-1) <= x)

assume github.com/dkales/dpf-go/dpf.Gen(alpha, logN)
  requires 0 <= alpha && alpha < pow2(logN)
  fresh result0, result1
  ensures forall(b, 0, pow2(logN), imp(8*b < pow2(logN), ufseq("dpf", seq(result0), logN)[b] ^ ufseq("dpf", seq(result1), logN)[b] == ite(b == alpha/8, shl(byte(1), alpha%8), 0)))

assume github.com/dkales/dpf-go/dpf.EvalFull(key, logN)
  fresh result
  ensures 8*len(result) >= pow2(logN) && forall(k, 0, len(result), result[k] == ufseq("dpf", seq(key), logN)[k])

// total length of the first n blocks of a database
pred dbpos(d, n) := psum(base(d.BlockLengths), off(d.BlockLengths), n)

// the database describes its contents
pred wfdb(d) := d.NumRows >= 0 && d.NumColumns >= 0 && d.BlockSize >= 0 && len(d.BlockLengths) == d.NumRows*d.NumColumns && forall(k, 0, len(d.BlockLengths), 0 <= d.BlockLengths[k] && d.BlockLengths[k] <= d.BlockSize) && dbpos(d, len(d.BlockLengths)) == len(d.Entries)

// byte b of row i of an answer to the selection vector q
pred rowans(d, q, i, b) := rowx(base(d.Entries), off(d.Entries)+dbpos(d, i*d.NumColumns), base(d.BlockLengths), off(d.BlockLengths)+i*d.NumColumns, q, b, d.NumColumns)

func server.PIR.Answer(s, q)
  prop C01
  uses psum_mono, psum_nonneg, psum_split, rowx_ext
  case s.numServers == 2
  requires wfdb(s.db) && imp(s.numServers != 2, 8*len(q) >= s.db.NumColumns)
  inv [i iter, p int]: p == dbpos(s.db, i*s.db.NumColumns)
  inv [i outer, j iter, p int]: p == dbpos(s.db, i*s.db.NumColumns + j)
  inv [i iter, o mod:[]byte, w []byte]: forall(r, 0, i, forall(b, 0, s.db.BlockSize, o[r*s.db.BlockSize+b] == rowans(s.db, seq(w), r, b)))
  fresh result
  ensures len(result) == s.db.NumRows*s.db.BlockSize
  ensures imp(s.numServers != 2, forall(i, 0, s.db.NumRows, forall(b, 0, s.db.BlockSize, result[i*s.db.BlockSize+b] == rowans(s.db, seq(q), i, b))))
  ensures imp(s.numServers == 2, forall(i, 0, s.db.NumRows, forall(b, 0, s.db.BlockSize, result[i*s.db.BlockSize+b] == rowans(s.db, ufseq("dpf", seq(q), uf("bitlen", s.db.NumColumns)), i, b))))

// byte b of the exclusive or of the first n strings
rec xorall(a bytess, o int, b int, n int) byte := ite(n <= 0, 0, xorall(a, o, b, n-1) ^ a[n-1][o+b])

func client.reconstructValuePIR(answers, dbInfo, state)
  prop C01 C03
  requires dbInfo.BlockSize >= 0 && state.ix >= 0 && forall(k, 0, len(answers), len(answers[k]) >= (state.ix+1)*dbInfo.BlockSize)
  inv [k iter, s []byte]: forall(b, 0, dbInfo.BlockSize, s[b] == xorall(seq(answers), state.ix*dbInfo.BlockSize, b, k))
  fresh result0
  ensures result1 == nil && len(result0) == dbInfo.BlockSize
  ensures forall(b, 0, dbInfo.BlockSize, result0[b] == xorall(seq(answers), state.ix*dbInfo.BlockSize, b, len(answers)))

// what the client reads: the exclusive or of the answers for the row of the block
pred recon(answers, dbInfo, state) := lam(b, xorall(seq(answers), state.ix*dbInfo.BlockSize, b, len(answers)))
pred ofmerkle(dbInfo) := dbInfo.PIRType == "merkle"

pred unpadded(answers, dbInfo, state) := ulen(recon(answers, dbInfo, state), dbInfo.BlockSize)
// the hash of data at the position of the block and the proof in x[o:], in which there are n hashes
pred answerid(x, o, n, data, index) := pid(lam(k, u128le(x, o+4+32*k)), lam(k, u128le(x, o+20+32*k)), (index+pow2(n))%pow2(32), leafid(data, index), n)
pred position(dbInfo, state) := state.ix*dbInfo.NumColumns+state.iy

func client.reconstructPIR(answers, dbInfo, state)
  prop C03 C01
  uses ulen_ext, ulen_range, pid_ext
  requires dbInfo.BlockSize >= 0 && state.ix >= 0 && forall(k, 0, len(answers), len(answers[k]) >= (state.ix+1)*dbInfo.BlockSize)
  requires dbInfo.PIRType == "merkle" || dbInfo.PIRType == "classical" || dbInfo.PIRType == ""
  requires dbInfo.NumColumns >= 0 && state.iy >= 0 && position(dbInfo, state) < pow2(63)
  requires imp(ofmerkle(dbInfo), dbInfo.Merkle.ProofLen >= 0 && dbInfo.Merkle.ProofLen < pow2(32))
  ensures imp(!ofmerkle(dbInfo), result1 == nil && len(result0) == dbInfo.BlockSize)
  ensures imp(!ofmerkle(dbInfo), forall(b, 0, dbInfo.BlockSize, result0[b] == recon(answers, dbInfo, state)[b]))
  ensures imp(ofmerkle(dbInfo) && result1 == nil, len(result0) == unpadded(answers, dbInfo, state)-dbInfo.Merkle.ProofLen)
  ensures imp(ofmerkle(dbInfo) && result1 == nil, forall(b, 0, len(result0), result0[b] == recon(answers, dbInfo, state)[b]))
  ensures imp(ofmerkle(dbInfo) && result1 == nil, u32le(recon(answers, dbInfo, state), len(result0)+dbInfo.Merkle.ProofLen-4) == position(dbInfo, state))
  ensures imp(ofmerkle(dbInfo) && result1 == nil, dbInfo.Merkle.ProofLen == 8+32*u32le(recon(answers, dbInfo, state), len(result0)))
  ensures imp(ofmerkle(dbInfo) && result1 == nil, len(dbInfo.Merkle.Root) == 32 && u128le(dbInfo.Merkle.Root, 0) == uf128("hlo", answerid(recon(answers, dbInfo, state), len(result0), (dbInfo.Merkle.ProofLen-8)/32, result0, position(dbInfo, state))))
  ensures imp(ofmerkle(dbInfo) && result1 == nil, u128le(dbInfo.Merkle.Root, 16) == uf128("hhi", answerid(recon(answers, dbInfo, state), len(result0), (dbInfo.Merkle.ProofLen-8)/32, result0, position(dbInfo, state))))

func client.invalidQueryInputsIT(index, numServers)
  prop C02
  ensures result == (index < 0 || numServers < 2)

// byte b of the exclusive or of n strings of w bytes each
rec xortape(t bytes, p int, w int, b int, n int) byte := ite(n <= 0, 0, xortape(t, p, w, b, n-1) ^ t[p+(n-1)*w+b])

func client.PIR.secretShare(c, numServers)
  prop C02 C01
  option readok
  requires numServers >= 2 && c.dbInfo.NumColumns >= 1 && 0 <= c.state.iy && c.state.iy < c.dbInfo.NumColumns
  inv [i iter, v [][]byte]: forall(k, 0, i, forall(b, 0, c.dbInfo.NumColumns/8+1, v[k][b] == heap("G:tape", c.rnd)[old(heap("G:pos", c.rnd)) + k*(c.dbInfo.NumColumns/8+1) + b]))
  inv [i iter, v [][]byte]: forall(b, 0, c.dbInfo.NumColumns/8+1, v[numServers-1][b] == ite(b == c.state.iy/8, shl(byte(1), c.state.iy%8), 0) ^ xortape(heap("G:tape", c.rnd), old(heap("G:pos", c.rnd)), c.dbInfo.NumColumns/8+1, b, i))
  modifies heap("G:pos", c.rnd)
  fresh result0 if result1 == nil, result0[k] for k < numServers if result1 == nil
  ensures imp(result1 == nil, len(result0) == numServers && forall(k, 0, numServers, len(result0[k]) == c.dbInfo.NumColumns/8+1))
  ensures imp(result1 == nil, heap("G:pos", c.rnd) == old(heap("G:pos", c.rnd)) + (numServers-1)*(c.dbInfo.NumColumns/8+1))
  ensures imp(result1 == nil, forall(k, 0, numServers-1, forall(b, 0, c.dbInfo.NumColumns/8+1, result0[k][b] == heap("G:tape", c.rnd)[old(heap("G:pos", c.rnd)) + k*(c.dbInfo.NumColumns/8+1) + b])))
  ensures imp(result1 == nil, forall(b, 0, c.dbInfo.NumColumns/8+1, result0[numServers-1][b] == ite(b == c.state.iy/8, shl(byte(1), c.state.iy%8), 0) ^ xortape(heap("G:tape", c.rnd), old(heap("G:pos", c.rnd)), c.dbInfo.NumColumns/8+1, b, numServers-1)))

// the unit vector that the shares of a query sum to
pred sharetape(c, k, b) := heap("G:tape", c.rnd)[old(heap("G:pos", c.rnd)) + k*(c.dbInfo.NumColumns/8+1) + b]

func client.PIR.Query(c, index, numServers)
  prop C02 C01
  option readok
  requires 1 <= c.dbInfo.NumColumns && c.dbInfo.NumColumns < pow2(63)
  refuses index < 0 || numServers < 2
  modifies c.state, heap("G:pos", c.rnd)
  fresh result, c.state
  ensures len(result) == numServers && c.state.ix == index/c.dbInfo.NumColumns && c.state.iy == index%c.dbInfo.NumColumns
  ensures imp(numServers > 2, forall(k, 0, numServers-1, forall(b, 0, c.dbInfo.NumColumns/8+1, result[k][b] == sharetape(c, k, b))))
  ensures imp(numServers > 2, forall(b, 0, c.dbInfo.NumColumns/8+1, result[numServers-1][b] == ite(b == c.state.iy/8, shl(byte(1), c.state.iy%8), 0) ^ xortape(heap("G:tape", c.rnd), old(heap("G:pos", c.rnd)), c.dbInfo.NumColumns/8+1, b, numServers-1)))
  ensures imp(numServers == 2, forall(b, 0, c.dbInfo.NumColumns/8+1, ufseq("dpf", seq(result[0]), uf("bitlen", c.dbInfo.NumColumns))[b] ^ ufseq("dpf", seq(result[1]), uf("bitlen", c.dbInfo.NumColumns))[b] == ite(b == c.state.iy/8, shl(byte(1), c.state.iy%8), 0)))

func client.PIR.Reconstruct(c, answers)
  prop C01 C03
  uses ulen_ext, ulen_range, pid_ext
  requires c.dbInfo.BlockSize >= 0 && c.state.ix >= 0 && forall(k, 0, len(answers), len(answers[k]) >= (c.state.ix+1)*c.dbInfo.BlockSize)
  requires c.dbInfo.PIRType == "merkle" || c.dbInfo.PIRType == "classical" || c.dbInfo.PIRType == ""
  requires c.dbInfo.NumColumns >= 0 && c.state.iy >= 0 && position(c.dbInfo, c.state) < pow2(63)
  requires imp(ofmerkle(c.dbInfo), c.dbInfo.Merkle.ProofLen >= 0 && c.dbInfo.Merkle.ProofLen < pow2(32))
  ensures imp(!ofmerkle(c.dbInfo), result1 == nil && len(result0) == c.dbInfo.BlockSize)
  ensures imp(!ofmerkle(c.dbInfo), forall(b, 0, c.dbInfo.BlockSize, result0[b] == recon(answers, c.dbInfo, c.state)[b]))
  ensures imp(ofmerkle(c.dbInfo) && result1 == nil, len(result0) == unpadded(answers, c.dbInfo, c.state)-c.dbInfo.Merkle.ProofLen)
  ensures imp(ofmerkle(c.dbInfo) && result1 == nil, forall(b, 0, len(result0), result0[b] == recon(answers, c.dbInfo, c.state)[b]))
  ensures imp(ofmerkle(c.dbInfo) && result1 == nil, u32le(recon(answers, c.dbInfo, c.state), len(result0)+c.dbInfo.Merkle.ProofLen-4) == position(c.dbInfo, c.state))
  ensures imp(ofmerkle(c.dbInfo) && result1 == nil, c.dbInfo.Merkle.ProofLen == 8+32*u32le(recon(answers, c.dbInfo, c.state), len(result0)))
  ensures imp(ofmerkle(c.dbInfo) && result1 == nil, len(c.dbInfo.Merkle.Root) == 32 && u128le(c.dbInfo.Merkle.Root, 0) == uf128("hlo", answerid(recon(answers, c.dbInfo, c.state), len(result0), (c.dbInfo.Merkle.ProofLen-8)/32, result0, position(c.dbInfo, c.state))))
  ensures imp(ofmerkle(c.dbInfo) && result1 == nil, u128le(c.dbInfo.Merkle.Root, 16) == uf128("hhi", answerid(recon(answers, c.dbInfo, c.state), len(result0), (c.dbInfo.Merkle.ProofLen-8)/32, result0, position(c.dbInfo, c.state))))

// What the client accepts has the digest of the block that the root commits to
// at the position, unless there is a collision on the path.
theorem point_committed(answers [][]byte, dbInfo *database.Info, state *client.state, data [][]byte, hash merkle.HashType)
  prop C03
  requires dbInfo.BlockSize >= 0 && state.ix >= 0 && forall(k, 0, len(answers), len(answers[k]) >= (state.ix+1)*dbInfo.BlockSize)
  requires dbInfo.NumColumns >= 0 && state.iy >= 0
  requires position(dbInfo, state) < len(data) && len(data) <= pow2(31)
  requires dbInfo.PIRType == "merkle"
  call t, err := merkle.NewUsing(data, hash)
  call root := merkle.MerkleTree.Root(t)
  call n := merkle.MerkleTree.EncodedProofLength(t)
  requires dbInfo.Merkle.ProofLen == n && u128le(dbInfo.Merkle.Root, 0) == u128le(root, 0) && u128le(dbInfo.Merkle.Root, 16) == u128le(root, 16)
  call b, rerr := client.reconstructPIR(answers, dbInfo, state)
  requires rerr == nil
  let pos := position(dbInfo, state)
  let d := clog2(len(data))
  let leaf := leafid(b, pos)
  let plo := lam(k, u128le(recon(answers, dbInfo, state), len(b)+4+32*k))
  let phi := lam(k, u128le(recon(answers, dbInfo, state), len(b)+20+32*k))
  let lo := lam(k, nlo(t, k))
  let hi := lam(k, nhi(t, k))
  requires forall(k, 0, d, nocollision(lo, hi, plo, phi, pos+pow2(d), leaf, k))
  ensures (pos+pow2(d))%pow2(32) == pos+pow2(d)
  ensures (dbInfo.Merkle.ProofLen-8)/32 == d
  apply binding(lo, hi, plo, phi, pos+pow2(d), leaf, d, d)
  ensures uf128("hlo", leafid(b, pos)) == uf128("hlo", leafid(data[pos], pos))
  ensures uf128("hhi", leafid(b, pos)) == uf128("hhi", leafid(data[pos], pos))
