// Integrity amplification of the 32-bit LWE scheme: lib/client/amplify.go, lib/server/amplify.go.

func client.NewLWE(rnd, info, params)
  prop C08 C10
  fresh result
  ensures result.rnd == rnd && result.dbInfo == info && result.params == params

func client.NewAmplify(rnd, info, params, tECC)
  prop C10
  requires tECC >= 0
  fresh result, result.lwes, result.lwes[k] for k < 2*tECC+1
  ensures result.repetitions == 2*tECC+1 && len(result.lwes) == 2*tECC+1
  ensures forall(k, 0, 2*tECC+1, result.lwes[k].rnd == rnd && result.lwes[k].dbInfo == info && result.lwes[k].params == params)
  ensures forall(k, 0, 2*tECC+1, forall(l, 0, k, ref(result.lwes[k]) != ref(result.lwes[l])))

func server.Amplify.Answer(a, qq)
  prop C10
  requires wf(a.lwe.db.Matrix) && forall(k, 0, len(a.lwe.db.Matrix.data), a.lwe.db.Matrix.data[k] <= 1)
  requires forall(k, 0, len(qq), wf(qq[k]) && mulsize(qq[k], a.lwe.db.Matrix) && qq[k].cols == a.lwe.db.Matrix.rows)
  fresh result, result[k] for k < len(qq)
  ensures len(result) == len(qq)
  ensures forall(k, 0, len(qq), result[k].rows == qq[k].rows && result[k].cols == a.lwe.db.Matrix.cols && wf(result[k]))
  ensures forall(k, 0, len(qq), forall(i, 0, qq[k].rows, forall(j, 0, a.lwe.db.Matrix.cols, result[k].data[a.lwe.db.Matrix.cols*i+j] == bdot32(seq(qq[k].data), seq(a.lwe.db.Matrix.data), qq[k].cols, a.lwe.db.Matrix.cols, i, j, qq[k].cols))))

pred accepts(c, d) := forall(k, 0, c.params.M, near(lwecoord(c, d, k), c.params.B) || near((lwecoord(c, d, k) - c.state.t) % pow2(32), c.params.B))
pred bitof(c, d) := ite(near(lwecoord(c, d, c.state.j), c.params.B), 0, 1)

pred ampbits(a, answers) := lam(k, bitof(a.lwes[k], seq(answers[k].data)))

func client.Amplify.Reconstruct(a, answers)
  prop C10
  uses cnt_ext
  requires a.repetitions >= 1 && a.repetitions % 2 == 1 && len(a.lwes) == a.repetitions && len(answers) == a.repetitions
  requires forall(k, 0, a.repetitions, lwestate(a.lwes[k]) && wf(answers[k]) && answers[k].rows == 1 && answers[k].cols == a.lwes[k].params.M)
  requires forall(k, 0, a.repetitions, forall(l, 0, a.repetitions, ref(answers[k].data) != ref(a.lwes[l].state.secret.data) && ref(answers[k].data) != ref(a.lwes[l].state.digest.data)))
  requires forall(k, 0, a.repetitions, forall(l, 0, k, ref(answers[k].data) != ref(answers[l].data)))
  inv [i iter]: forall(k, i, a.repetitions, unchanged(answers[k].data))
  inv [i iter]: forall(k, 0, a.repetitions, unchanged(a.lwes[k].state.secret.data))
  inv [i iter]: forall(k, 0, a.repetitions, unchanged(a.lwes[k].state.digest.data))
  inv [i iter]: forall(k, 0, i, old(accepts(a.lwes[k], seq(answers[k].data))))
  inv [i iter, o []uint32]: forall(k, 0, i, o[k] == old(bitof(a.lwes[k], seq(answers[k].data))))
  modifies all []uint32
  ensures imp(result1 == nil, forall(k, 0, a.repetitions, old(accepts(a.lwes[k], seq(answers[k].data)))))
  ensures imp(result1 == nil, 2*cnt(old(ampbits(a, answers)), result0, a.repetitions) > a.repetitions)
  ensures imp(forall(k, 0, a.repetitions, old(accepts(a.lwes[k], seq(answers[k].data)))) && 2*cnt(old(ampbits(a, answers)), 0, a.repetitions) > a.repetitions, result1 == nil && result0 == 0)
  ensures imp(forall(k, 0, a.repetitions, old(accepts(a.lwes[k], seq(answers[k].data)))) && 2*cnt(old(ampbits(a, answers)), 1, a.repetitions) > a.repetitions, result1 == nil && result0 == 1)

func client.Amplify.Query(a, i, j)
  prop C10
  option readok
  requires a.repetitions >= 1 && len(a.lwes) == a.repetitions
  requires forall(k, 0, a.repetitions, forall(l, 0, k, ref(a.lwes[k]) != ref(a.lwes[l])))
  requires forall(k, 0, a.repetitions, a.lwes[k].params.N > 0 && 0 <= i && i < a.lwes[k].params.L && a.lwes[k].params.N*a.lwes[k].params.L < pow2(31) && a.lwes[k].params.N < pow2(31) && a.lwes[k].params.L < pow2(31))
  requires forall(k, 0, a.repetitions, a.lwes[k].rnd == a.lwes[0].rnd)
  inv [n iter, q []*matrix.Matrix]: forall(k, 0, n, q[k].rows == 1 && q[k].cols == a.lwes[k].params.L && len(q[k].data) == a.lwes[k].params.L)
  inv [n iter]: forall(k, 0, n, a.lwes[k].state.i == i && a.lwes[k].state.j == j && a.lwes[k].state.digest == a.lwes[k].dbInfo.DigestLWE)
  inv [n iter]: forall(k, 0, n, wf(a.lwes[k].state.secret) && a.lwes[k].state.secret.rows == 1 && a.lwes[k].state.secret.cols == a.lwes[k].params.N)
  modifies all client.LWE.state, all G:pos
  fresh result
  ensures len(result) == a.repetitions
  ensures forall(k, 0, a.repetitions, result[k].rows == 1 && result[k].cols == a.lwes[k].params.L && len(result[k].data) == a.lwes[k].params.L)
  ensures forall(k, 0, a.repetitions, a.lwes[k].state.i == i && a.lwes[k].state.j == j && a.lwes[k].state.digest == a.lwes[k].dbInfo.DigestLWE)
  ensures forall(k, 0, a.repetitions, wf(a.lwes[k].state.secret) && a.lwes[k].state.secret.rows == 1 && a.lwes[k].state.secret.cols == a.lwes[k].params.N)
