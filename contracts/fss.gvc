// Function secret sharing clients and servers for predicate queries:
// lib/client/fss.go, lib/client/predicate_apir.go, lib/client/predicate_pir.go.

// entry k of two answers, added modulo p
pred fsum(answers, k) := (answers[0][k] + answers[1][k]) % pow2(32) % field.ModP

// every tag is its factor times the value at o
pred tagged(c, answers, o, n) := forall(i, 0, n, (fsum(answers, o) * c.state.alphas[i]) % field.ModP == fsum(answers, o+i+1))

func client.clientFSS.reconstruct(c, answers)
  prop C07 C06
  requires len(answers) == 2 && c.executions >= 1 && len(c.state.alphas) >= c.executions - 1
  requires len(answers[1]) == len(answers[0]) && (len(answers[0]) == c.executions || len(answers[0]) == 2*c.executions)
  inv [i iter]: tagged(c, answers, 0, i)
  inv [i iter]: tagged(c, answers, c.executions, i)
  ensures imp(len(answers[0]) == c.executions, iff(result1 == nil, tagged(c, answers, 0, c.executions-1)))
  ensures imp(len(answers[0]) == c.executions && result1 == nil, result0 == fsum(answers, 0))
  ensures imp(len(answers[0]) == 2*c.executions, iff(result1 == nil, tagged(c, answers, 0, c.executions-1) && tagged(c, answers, c.executions, c.executions-1) && fsum(answers, 0) != 0))
  ensures imp(len(answers[0]) == 2*c.executions && result1 == nil, result0 == fsum(answers, c.executions) / fsum(answers, 0))

func client.invalidQueryInputsFSS(numServers)
  prop C02
  ensures result == (numServers != 2)

func client.clientFSS.query(c, q, numServers)
  prop C02 C07
  option readok
  requires wffss(c.Fss) && 1 <= c.executions && c.executions <= c.Fss.BlockLength
  requires ref(c.rnd) != cryptorand
  refuses numServers != 2
  modifies c.state, c.Fss.Temp[*], c.Fss.Out[*], c.Fss.OutConvertBlock[*], heap("G:pos", c.rnd), heap("G:pos", cryptorand)
  inv [i iter]: forall(k, 0, i, c.state.alphas[k] < field.ModP && c.state.a[k+1] == c.state.alphas[k])
  inv [i iter]: c.state.a[0] == 1
  fresh result, c.state, c.state.alphas, c.state.a
  ensures len(result) == 2 && len(c.state.alphas) == c.executions && len(c.state.a) == c.executions
  ensures c.state.a[0] == 1 && forall(k, 0, c.executions-1, c.state.alphas[k] < field.ModP && c.state.a[k+1] == c.state.alphas[k])
  ensures result[0].Info == q.Info && result[1].Info == q.Info
  ensures keyshape(result[0].FssKey, len(q.Input), c.executions) && keyshape(result[1].FssKey, len(q.Input), c.executions)
  ensures forall(k, 0, 16, result[0].FssKey.SInit[k] == heap("G:tape", cryptorand)[old(heap("G:pos", cryptorand)) + k])
  ensures forall(k, 0, 16, result[1].FssKey.SInit[k] == heap("G:tape", cryptorand)[old(heap("G:pos", cryptorand)) + 17 + k])

func client.PredicateAPIR.Query(c, q, numServers)
  prop C02 C07
  option readok
  requires wffss(c.clientFSS.Fss) && 1 <= c.clientFSS.executions && c.clientFSS.executions <= c.clientFSS.Fss.BlockLength
  requires ref(c.clientFSS.rnd) != cryptorand
  refuses numServers != 2
  modifies c.clientFSS.state, c.clientFSS.Fss.Temp[*], c.clientFSS.Fss.Out[*], c.clientFSS.Fss.OutConvertBlock[*], heap("G:pos", c.clientFSS.rnd), heap("G:pos", cryptorand)
  inv [i iter]: forall(k, 0, i, c.clientFSS.state.alphas[k] < field.ModP && c.clientFSS.state.a[k+1] == c.clientFSS.state.alphas[k])
  inv [i iter]: c.clientFSS.state.a[0] == 1
  fresh result, c.clientFSS.state, c.clientFSS.state.alphas, c.clientFSS.state.a
  ensures len(result) == 2 && len(c.clientFSS.state.alphas) == c.clientFSS.executions && len(c.clientFSS.state.a) == c.clientFSS.executions
  ensures c.clientFSS.state.a[0] == 1 && forall(k, 0, c.clientFSS.executions-1, c.clientFSS.state.alphas[k] < field.ModP && c.clientFSS.state.a[k+1] == c.clientFSS.state.alphas[k])
  ensures result[0].Info == q.Info && result[1].Info == q.Info
  ensures keyshape(result[0].FssKey, len(q.Input), c.clientFSS.executions) && keyshape(result[1].FssKey, len(q.Input), c.clientFSS.executions)
  ensures forall(k, 0, 16, result[0].FssKey.SInit[k] == heap("G:tape", cryptorand)[old(heap("G:pos", cryptorand)) + k])
  ensures forall(k, 0, 16, result[1].FssKey.SInit[k] == heap("G:tape", cryptorand)[old(heap("G:pos", cryptorand)) + 17 + k])

func client.PredicateAPIR.Reconstruct(c, answers)
  prop C07 C06
  requires len(answers) == 2 && c.clientFSS.executions >= 1 && len(c.clientFSS.state.alphas) >= c.clientFSS.executions - 1
  requires len(answers[1]) == len(answers[0]) && (len(answers[0]) == c.clientFSS.executions || len(answers[0]) == 2*c.clientFSS.executions)
  inv [i iter]: tagged(c.clientFSS, answers, 0, i)
  inv [i iter]: tagged(c.clientFSS, answers, c.clientFSS.executions, i)
  ensures imp(len(answers[0]) == c.clientFSS.executions, iff(result1 == nil, tagged(c.clientFSS, answers, 0, c.clientFSS.executions-1)))
  ensures imp(len(answers[0]) == c.clientFSS.executions && result1 == nil, result0 == fsum(answers, 0))
  ensures imp(len(answers[0]) == 2*c.clientFSS.executions, iff(result1 == nil, tagged(c.clientFSS, answers, 0, c.clientFSS.executions-1) && tagged(c.clientFSS, answers, c.clientFSS.executions, c.clientFSS.executions-1) && fsum(answers, 0) != 0))
  ensures imp(len(answers[0]) == 2*c.clientFSS.executions && result1 == nil, result0 == fsum(answers, c.clientFSS.executions) / fsum(answers, 0))

func client.NewPredicateAPIR(rnd, info)
  prop C07 C02
  requires len(fss.PrfKeys) == 4 && forall(k, 0, 4, len(fss.PrfKeys[k]) == 16)
  fresh result, result.clientFSS, result.clientFSS.Fss
  ensures result.clientFSS.executions == 5 && wffss(result.clientFSS.Fss) && result.clientFSS.Fss.BlockLength == 5 && ref(result.clientFSS.rnd) == ref(rnd)

func client.PredicatePIR.Query(c, q, numServers)
  prop C02 C07
  option readok
  requires wffss(c.clientFSS.Fss) && 1 <= c.clientFSS.executions && c.clientFSS.executions <= c.clientFSS.Fss.BlockLength
  requires ref(c.clientFSS.rnd) != cryptorand
  refuses numServers != 2
  modifies c.clientFSS.state, c.clientFSS.Fss.Temp[*], c.clientFSS.Fss.Out[*], c.clientFSS.Fss.OutConvertBlock[*], heap("G:pos", c.clientFSS.rnd), heap("G:pos", cryptorand)
  inv [i iter]: forall(k, 0, i, c.clientFSS.state.alphas[k] < field.ModP && c.clientFSS.state.a[k+1] == c.clientFSS.state.alphas[k])
  inv [i iter]: c.clientFSS.state.a[0] == 1
  fresh result, c.clientFSS.state, c.clientFSS.state.alphas, c.clientFSS.state.a
  ensures len(result) == 2 && len(c.clientFSS.state.alphas) == c.clientFSS.executions && len(c.clientFSS.state.a) == c.clientFSS.executions
  ensures c.clientFSS.state.a[0] == 1 && forall(k, 0, c.clientFSS.executions-1, c.clientFSS.state.alphas[k] < field.ModP && c.clientFSS.state.a[k+1] == c.clientFSS.state.alphas[k])
  ensures result[0].Info == q.Info && result[1].Info == q.Info
  ensures keyshape(result[0].FssKey, len(q.Input), c.clientFSS.executions) && keyshape(result[1].FssKey, len(q.Input), c.clientFSS.executions)
  ensures forall(k, 0, 16, result[0].FssKey.SInit[k] == heap("G:tape", cryptorand)[old(heap("G:pos", cryptorand)) + k])
  ensures forall(k, 0, 16, result[1].FssKey.SInit[k] == heap("G:tape", cryptorand)[old(heap("G:pos", cryptorand)) + 17 + k])

func client.PredicatePIR.Reconstruct(c, answers)
  prop C07 C06
  requires len(answers) == 2 && c.clientFSS.executions >= 1 && len(c.clientFSS.state.alphas) >= c.clientFSS.executions - 1
  requires len(answers[1]) == len(answers[0]) && (len(answers[0]) == c.clientFSS.executions || len(answers[0]) == 2*c.clientFSS.executions)
  inv [i iter]: tagged(c.clientFSS, answers, 0, i)
  inv [i iter]: tagged(c.clientFSS, answers, c.clientFSS.executions, i)
  ensures imp(len(answers[0]) == c.clientFSS.executions, iff(result1 == nil, tagged(c.clientFSS, answers, 0, c.clientFSS.executions-1)))
  ensures imp(len(answers[0]) == c.clientFSS.executions && result1 == nil, result0 == fsum(answers, 0))
  ensures imp(len(answers[0]) == 2*c.clientFSS.executions, iff(result1 == nil, tagged(c.clientFSS, answers, 0, c.clientFSS.executions-1) && tagged(c.clientFSS, answers, c.clientFSS.executions, c.clientFSS.executions-1) && fsum(answers, 0) != 0))
  ensures imp(len(answers[0]) == 2*c.clientFSS.executions && result1 == nil, result0 == fsum(answers, c.clientFSS.executions) / fsum(answers, 0))

func client.NewPredicatePIR(rnd, info)
  prop C07 C02
  requires len(fss.PrfKeys) == 4 && forall(k, 0, 4, len(fss.PrfKeys[k]) == 16)
  fresh result, result.clientFSS, result.clientFSS.Fss
  ensures result.clientFSS.executions == 1 && wffss(result.clientFSS.Fss) && result.clientFSS.Fss.BlockLength == 1 && ref(result.clientFSS.rnd) == ref(rnd)
