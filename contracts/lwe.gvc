// LWE-based single-server retrieval, modulo 2^32: lib/client/lwe.go, lib/server/lwe.go.

pred near(v, b) := v < b || v > pow2(32) - b
pred noisy(v) := v <= 128 || v >= pow2(32) - 128

func matrix.NewRandom(rnd, r, c)
  prop C08
  option readok
  requires r >= 0 && c >= 0
  modifies heap("G:pos", rnd)
  fresh result, result.data
  ensures result.rows == r && result.cols == c && len(result.data) == r*c
  ensures forall(k, 0, r*c, result.data[k] == u32le(heap("G:tape", rnd), old(heap("G:pos", rnd)) + 4*k))
  ensures heap("G:pos", rnd) == old(heap("G:pos", rnd)) + 4*r*c

func matrix.NewGauss(r, c)
  prop C08
  requires r >= 0 && c >= 0
  fresh result, result.data
  ensures result.rows == r && result.cols == c && len(result.data) == r*c
  ensures forall(k, 0, r*c, noisy(result.data[k]))

func client.LWE.inRange(c, val)
  prop C08
  requires 0 < c.params.B
  ensures result == near(val, c.params.B)

pred lwecoord(c, a, k) := (a[k] - dot32(seq(c.state.secret.data), seq(c.state.digest.data), c.state.secret.cols, c.state.digest.cols, 0, k, c.state.secret.cols)) % pow2(32)

pred lwestate(c) := wf(c.state.secret) && wf(c.state.digest) && mulsize(c.state.secret, c.state.digest) && c.state.secret.rows == 1 && c.state.digest.rows == c.state.secret.cols && 0 < c.params.B && 0 <= c.state.j && c.state.j < c.params.M && c.state.digest.cols == c.params.M

func client.LWE.Reconstruct(c, answers)
  prop C08
  requires lwestate(c) && wf(answers)
  refuses answers.rows != 1 || answers.cols != c.params.M
  modifies answers.data[*]
  ensures iff(result1 == nil, forall(k, 0, c.params.M, near(old(lwecoord(c, seq(answers.data), k)), c.params.B) || near((old(lwecoord(c, seq(answers.data), k)) - c.state.t) % pow2(32), c.params.B)))
  ensures imp(result1 == nil, result0 == ite(near(old(lwecoord(c, seq(answers.data), c.state.j)), c.params.B), 0, 1))

func server.LWE.Answer(s, q)
  prop C08
  requires wf(q) && wf(s.db.Matrix) && mulsize(q, s.db.Matrix) && forall(k, 0, len(s.db.Matrix.data), s.db.Matrix.data[k] <= 1)
  refuses q.cols != s.db.Matrix.rows
  fresh result, result.data
  ensures result.rows == q.rows && result.cols == s.db.Matrix.cols && len(result.data) == q.rows*s.db.Matrix.cols
  ensures forall(i, 0, q.rows, forall(j, 0, s.db.Matrix.cols, result.data[s.db.Matrix.cols*i+j] == bdot32(seq(q.data), seq(s.db.Matrix.data), q.cols, s.db.Matrix.cols, i, j, q.cols)))

func client.LWE.Query(c, i, j)
  prop C08
  option readok
  requires c.params.N > 0 && 0 <= i && i < c.params.L && c.params.N*c.params.L < pow2(31) && c.params.N < pow2(31) && c.params.L < pow2(31)
  modifies c.state, heap("G:pos", c.rnd)
  fresh result, result.data, c.state, c.state.A, c.state.A.data, c.state.secret, c.state.secret.data
  ensures result.rows == 1 && result.cols == c.params.L && len(result.data) == c.params.L
  ensures c.state.i == i && c.state.j == j && c.state.digest == c.dbInfo.DigestLWE
  ensures c.state.t == u32le(heap("G:tape", c.rnd), old(heap("G:pos", c.rnd)))
  ensures c.state.secret.rows == 1 && c.state.secret.cols == c.params.N && len(c.state.secret.data) == c.params.N
  ensures forall(k, 0, c.params.N, c.state.secret.data[k] == u32le(heap("G:tape", c.rnd), old(heap("G:pos", c.rnd)) + 4 + 4*k))
  ensures c.state.A.rows == c.params.N && c.state.A.cols == c.params.L && len(c.state.A.data) == c.params.N*c.params.L
  ensures forall(k, 0, c.params.N*c.params.L, c.state.A.data[k] == u32le(ufseq("prg", *c.params.SeedA), 4*k))
  ensures forall(k, 0, c.params.L, noisy((result.data[k] - dot32(seq(c.state.secret.data), seq(c.state.A.data), c.params.N, c.params.L, 0, k, c.params.N) - ite(k == i, c.state.t, 0)) % pow2(32)))
  ensures heap("G:pos", c.rnd) == old(heap("G:pos", c.rnd)) + 4 + 4*c.params.N

// the state of c is what a query q for row i and column j needs
pred lweq(c, q, i, j) := q.rows == 1 && q.cols == c.params.L && len(q.data) == c.params.L && c.state.i == i && c.state.j == j && c.state.digest == c.dbInfo.DigestLWE && wf(c.state.secret) && wf(c.state.A) && c.state.secret.rows == 1 && c.state.secret.cols == c.params.N && c.state.A.rows == c.params.N && c.state.A.cols == c.params.L && forall(k, 0, c.params.N*c.params.L, c.state.A.data[k] == u32le(ufseq("prg", *c.params.SeedA), 4*k)) && forall(k, 0, c.params.L, noisy((q.data[k] - dot32(seq(c.state.secret.data), seq(c.state.A.data), c.params.N, c.params.L, 0, k, c.params.N) - ite(k == i, c.state.t, 0)) % pow2(32)))
