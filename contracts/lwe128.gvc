// 128-bit LWE-based single-server retrieval: lib/client/lwe128.go, lib/server/lwe128.go.

pred near128(v, b) := v < b || v > pow2(128) - b
pred noisy128(v) := v <= 128 || v >= pow2(128) - 128

func matrix.NewRandom128(rnd, r, c)
  prop C09
  option readok
  requires r >= 0 && c >= 0
  modifies heap("G:pos", rnd)
  fresh result, result.data
  ensures result.rows == r && result.cols == c && len(result.data) == r*c
  ensures forall(k, 0, r*c, result.data[k] == u128le(heap("G:tape", rnd), old(heap("G:pos", rnd)) + 16*k))
  ensures heap("G:pos", rnd) == old(heap("G:pos", rnd)) + 16*r*c

func matrix.NewGauss128(r, c)
  prop C09
  requires r >= 0 && c >= 0
  fresh result, result.data
  ensures result.rows == r && result.cols == c && len(result.data) == r*c
  ensures forall(k, 0, r*c, noisy128(result.data[k]))

func client.LWE128.inRange(c, val)
  prop C09
  requires 0 < c.params.B
  ensures result == near128(val, c.params.B)

pred lwecoord128(c, a, k) := (a[k] - dot128(seq(c.state.secret.data), seq(c.state.digest.data), c.state.secret.cols, c.state.digest.cols, 0, k, c.state.secret.cols)) % pow2(128)

pred lwestate128(c) := wf(c.state.secret) && wf(c.state.digest) && mulsize(c.state.secret, c.state.digest) && c.state.secret.rows == 1 && c.state.digest.rows == c.state.secret.cols && 0 < c.params.B && 0 <= c.state.j && c.state.j < c.params.M && c.state.digest.cols == c.params.M

func client.LWE128.Reconstruct(c, answers)
  prop C09
  requires lwestate128(c) && wf(answers)
  refuses answers.rows != 1 || answers.cols != c.params.M
  modifies answers.data[*]
  ensures iff(result1 == nil, forall(k, 0, c.params.M, near128(old(lwecoord128(c, seq(answers.data), k)), c.params.B) || near128((old(lwecoord128(c, seq(answers.data), k)) - c.state.t) % pow2(128), c.params.B)))
  ensures imp(result1 == nil, result0 == ite(near128(old(lwecoord128(c, seq(answers.data), c.state.j)), c.params.B), 0, 1))

func server.LWE128.Answer(s, q)
  prop C09
  requires wf(q) && wf(s.db.Matrix) && mulsize(q, s.db.Matrix) && forall(k, 0, len(s.db.Matrix.data), s.db.Matrix.data[k] <= 1)
  refuses q.cols != s.db.Matrix.rows
  fresh result, result.data
  ensures result.rows == q.rows && result.cols == s.db.Matrix.cols && len(result.data) == q.rows*s.db.Matrix.cols
  ensures forall(i, 0, q.rows, forall(j, 0, s.db.Matrix.cols, result.data[s.db.Matrix.cols*i+j] == bdot128(seq(q.data), seq(s.db.Matrix.data), q.cols, s.db.Matrix.cols, i, j, q.cols)))

func client.LWE128.Query(c, i, j)
  prop C09
  option readok
  requires c.params.N > 0 && 0 <= i && i < c.params.L && c.params.N*c.params.L < pow2(31) && c.params.N < pow2(31) && c.params.L < pow2(31)
  modifies c.state, heap("G:pos", c.rnd)
  fresh result, result.data, c.state, c.state.A, c.state.A.data, c.state.secret, c.state.secret.data
  ensures result.rows == 1 && result.cols == c.params.L && len(result.data) == c.params.L
  ensures c.state.i == i && c.state.j == j && c.state.digest == c.dbInfo.DigestLWE128
  ensures c.state.t == u128le(heap("G:tape", c.rnd), old(heap("G:pos", c.rnd)))
  ensures c.state.secret.rows == 1 && c.state.secret.cols == c.params.N && len(c.state.secret.data) == c.params.N
  ensures forall(k, 0, c.params.N, c.state.secret.data[k] == u128le(heap("G:tape", c.rnd), old(heap("G:pos", c.rnd)) + 16 + 16*k))
  ensures c.state.A.rows == c.params.N && c.state.A.cols == c.params.L && len(c.state.A.data) == c.params.N*c.params.L
  ensures forall(k, 0, c.params.N*c.params.L, c.state.A.data[k] == u128le(ufseq("prg", *c.params.SeedA), 16*k))
  ensures forall(k, 0, c.params.L, noisy128((result.data[k] - dot128(seq(c.state.secret.data), seq(c.state.A.data), c.params.N, c.params.L, 0, k, c.params.N) - ite(k == i, c.state.t, 0)) % pow2(128)))
  ensures heap("G:pos", c.rnd) == old(heap("G:pos", c.rnd)) + 16 + 16*c.params.N
