// Two-party function secret sharing of point functions: lib/fss.

// s XOR t over the shorter of both
assume github.com/lukechampine/fastxor.Bytes(dst, a, b)
  modifies dst[*]
  ensures result == min(len(dst), min(len(a), len(b)))
  ensures forall(k, 0, len(dst), dst[k] == ite(k < result, old(a[k]) ^ old(b[k]), old(dst[k])))

// AES with a fixed key: a fixed function of the block
iface crypto/cipher.Block.Encrypt(b, dst, src)
  requires len(dst) >= 16 && len(src) >= 16
  modifies dst[*]
  ensures forall(k, 0, len(dst), dst[k] == ite(k < 16, byteof(uf128("aes", heap("G:ckey", b), old(u128le(src, 0))), k), old(dst[k])))

assume crypto/aes.NewCipher(key)
  requires len(key) == 16
  fresh result
  ensures result1 == nil && heap("G:ckey", result) == u128le(key, 0)

func fss.prf(x, aesBlocks, numBlocks, temp, out)
  prop C05
  requires len(x) == 16 && len(temp) == 16 && numBlocks <= 4 && len(aesBlocks) >= numBlocks && len(out) + 16 >= 16*numBlocks
  requires ref(temp) != ref(x) && ref(temp) != ref(out) && ref(out) != ref(x)
  inv [i iter]: forall(k, 0, len(out), out[k] == ite(k < 16*i, byteof(uf128("aes", heap("G:ckey", aesBlocks[k/16]), u128le(x, 0)), k%16) ^ x[k%16], old(out[k])))
  modifies temp[*], out[*]
  ensures forall(k, 0, len(out), out[k] == ite(k < 16*numBlocks, byteof(uf128("aes", heap("G:ckey", aesBlocks[k/16]), u128le(x, 0)), k%16) ^ x[k%16], old(out[k])))

// the state a client or server keeps: four ciphers and scratch buffers of its own
pred wffss(f) := len(f.FixedBlocks) == 4 && len(f.Temp) == 16 && len(f.Out) == 64 && 1 <= f.BlockLength && f.BlockLength <= 16 && len(f.OutConvertBlock) == 4*f.BlockLength && ref(f.Temp) != ref(f.Out) && ref(f.Temp) != ref(f.OutConvertBlock) && ref(f.Out) != ref(f.OutConvertBlock)

// byte k of the expansion of the block x
pred prfb(f, x, k) := byteof(uf128("aes", heap("G:ckey", f.FixedBlocks[k/16]), u128le(x, 0)), k%16) ^ x[k%16]

func fss.convertBlock(f, x, out)
  prop C05
  requires len(f.FixedBlocks) == 4 && len(f.Temp) == 16 && len(f.OutConvertBlock) >= 4*len(out) && len(out) <= 16 && len(x) == 16
  requires ref(f.Temp) != ref(f.OutConvertBlock) && ref(x) != ref(f.Temp) && ref(x) != ref(f.OutConvertBlock)
  modifies f.Temp[*], f.OutConvertBlock[*], out[*]
  ensures forall(k, 0, len(out), out[k] == (16777216*int(prfb(f, x, 4*k)) + 65536*int(prfb(f, x, 4*k+1)) + 256*int(prfb(f, x, 4*k+2)) + int(prfb(f, x, 4*k+3))) % 2147483648 % field.ModP)

func fss.ClientInitialize(blockLength)
  prop C05 C07
  requires 1 <= blockLength && blockLength <= 16
  requires len(fss.PrfKeys) == 4 && forall(k, 0, 4, len(fss.PrfKeys[k]) == 16)
  fresh result, result.FixedBlocks, result.Temp, result.Out, result.OutConvertBlock
  ensures result.BlockLength == blockLength && wffss(result)
  ensures forall(k, 0, 4, heap("G:ckey", result.FixedBlocks[k]) == u128le(fss.PrfKeys[k], 0))

func fss.ServerInitialize(blockLength)
  prop C05 C07
  requires 1 <= blockLength && blockLength <= 16
  requires len(fss.PrfKeys) == 4 && forall(k, 0, 4, len(fss.PrfKeys[k]) == 16)
  fresh result, result.FixedBlocks, result.Temp, result.Out, result.OutConvertBlock
  ensures len(result.FixedBlocks) == 4 && len(result.Temp) == 16 && len(result.Out) == 64 && len(result.OutConvertBlock) == 4*blockLength
  ensures forall(k, 0, 4, heap("G:ckey", result.FixedBlocks[k]) == u128le(fss.PrfKeys[k], 0))

// shape of a pair of keys for an input of n bits and m values
pred keyshape(k, n, m) := len(k.SInit) == 16 && k.TInit <= 1 && len(k.CW) == n && forall(l, 0, n, len(k.CW[l]) == 18) && len(k.FinalCW) == m

func fss.Fss.GenerateTreePF(f, a, b)
  prop C05 C02 C07
  option readok
  requires wffss(f) && len(b) <= f.BlockLength && forall(k, 0, len(b), b[k] < field.ModP)
  modifies f.Temp[*], f.Out[*], f.OutConvertBlock[*], heap("G:pos", cryptorand)
  inv [i iter, ks []fss.FssKeyEq2P]: forall(l, 0, i, forall(k, 0, 18, ks[0].CW[l][k] == ks[1].CW[l][k]))
  fresh result
  ensures len(result) == 2
  ensures keyshape(result[0], len(a), len(b)) && keyshape(result[1], len(a), len(b))
  ensures result[0].TInit != result[1].TInit
  ensures forall(k, 0, 16, result[0].SInit[k] == heap("G:tape", cryptorand)[old(heap("G:pos", cryptorand)) + k])
  ensures forall(k, 0, 16, result[1].SInit[k] == heap("G:tape", cryptorand)[old(heap("G:pos", cryptorand)) + 17 + k])
  ensures forall(l, 0, len(a), forall(k, 0, 18, result[0].CW[l][k] == result[1].CW[l][k]))
  ensures forall(k, 0, len(b), result[0].FinalCW[k] == result[1].FinalCW[k] && result[0].FinalCW[k] <= field.ModP)
