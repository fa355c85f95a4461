// Key directory: padding and the bucket table (lib/database).

func database.PadWithSignalByte(block)
  prop C16 C15
  modifies block[len(block):cap(block)][*]
  option inline
  ensures fresh(result) || ref(result) == ref(block)
  ensures len(result) == len(block)+1 && result[len(block)] == 0x80
  ensures forall(k, 0, len(block), result[k] == old(block[k]))
  ensures imp(len(block) < cap(block), ref(result) == ref(block) && off(result) == off(block))

// the end of the block is 0x80 and at least one zero
func database.PadBlock(block, blockLen)
  prop C16
  requires blockLen >= 1
  modifies block[len(block):cap(block)][*]
  ensures len(result) == len(block) + 1 + blockLen - (len(block)+1)%blockLen
  ensures forall(k, 0, len(block), result[k] == old(block[k]))
  ensures result[len(block)] == 0x80
  ensures forall(k, len(block)+1, len(result), result[k] == 0)

// what is cut off is one byte and the zeros after it
// the length of the first n bytes of x without the padding
rec ulen(x bytes, n int) int := ite(n <= 0, 0, ite(x[n-1] != 0, n-1, ulen(x, n-1)))

lemma ulen_zero(x bytes, n int)
  requires forall(k, 0, n, x[k] == 0)
  induct n
  trigger ulen(x, n)
  ensures ulen(x, n) == 0

lemma ulen_at(x bytes, n int, u int)
  requires 0 <= u && u < n && x[u] != 0 && forall(k, u+1, n, x[k] == 0)
  induct n
  trigger ulen(x, n), x[u]
  ensures ulen(x, n) == u

lemma ulen_ext(x bytes, y bytes, n int, m int)
  requires n == m && forall(k, 0, n, x[k] == y[k])
  induct n m
  trigger ulen(x, n), ulen(y, m)
  ensures ulen(x, n) == ulen(y, m)

lemma ulen_range(x bytes, n int)
  requires n >= 0
  induct n
  trigger ulen(x, n)
  ensures 0 <= ulen(x, n) && ulen(x, n) <= n

func database.UnPadBlock(block)
  prop C16 C03
  uses ulen_zero, ulen_at
  ensures len(result) == ulen(seq(block), len(block))
  ensures ref(result) == ref(block) && off(result) == off(block) && len(result) <= len(block)
  ensures len(result) == 0 && forall(k, 0, len(block), block[k] == 0) || len(result) < len(block) && block[len(result)] != 0 && forall(k, len(result)+1, len(block), block[k] == 0)

theorem unpad_pad(block []byte, blockLen int)
  prop C16
  requires blockLen >= 1
  call p := database.PadBlock(block, blockLen)
  call u := database.UnPadBlock(p)
  ensures len(u) == len(block) && forall(k, 0, len(block), u[k] == old(block[k]))
  ensures len(p)%blockLen == 0

theorem unpad_signal(block []byte)
  prop C16
  call p := database.PadWithSignalByte(block)
  call u := database.UnPadBlock(p)
  ensures len(u) == len(block) && forall(k, 0, len(block), u[k] == old(block[k]))

theorem unpad_zeros(block []byte)
  prop C16
  requires forall(k, 0, len(block), block[k] == 0)
  call u := database.UnPadBlock(block)
  ensures len(u) == 0

assume golang.org/x/crypto/blake2b.Sum256(data)
  ensures forall(k, 0, 32, result[k] == ufseq("blake2b256", seq(data), len(data))[k])

// the bucket of a key
func database.HashToIndex(id, length)
  prop C16 C17
  requires length >= 1 && length < pow2(32)
  ensures result == u32be(ufseq("blake2b256", seq(id), len(id)), 0) % length
  ensures result < length

// length of bucket b after n keys: h are the buckets of the keys, l the lengths
// of their packets
rec blen(h ints, l ints, b int, n int) nat :=
    ite(n <= 0, 0, blen(h, l, b, n-1) + ite(h[n-1] == b, l[n-1], 0))

pred bucketof(key, t) := u32be(ufseq("blake2b256", seq(key.ID), len(key.ID)), 0) % t

// where the packet of key k starts in its bucket of a table of t
pred at(keys, t, k) := blen(lam(x, bucketof(keys[x], t)), lam(x, len(keys[x].Packet)), bucketof(keys[k], t), k)

func database.makeHashTable(keys, tableLen)
  prop C16
  requires tableLen >= 1 && tableLen < pow2(32)
  requires forall(k, 0, len(keys), keys[k] != nil)
  fresh result
  inv [m map[int][]byte, i iter]: forall(b, 0, tableLen, len(m[b]) == blen(lam(k, bucketof(keys[k], tableLen)), lam(k, len(keys[k].Packet)), b, i))
  inv [m map[int][]byte]: forall(b, 0, tableLen, ref(m[b]) == 0 || fresh(m[b]))
  inv [m map[int][]byte]: forall(b, 0, tableLen, forall(c, 0, tableLen, imp(b != c && ref(m[b]) == ref(m[c]), ref(m[b]) == 0)))
  inv [m map[int][]byte, i iter]: forall(k, 0, i, forall(x, 0, len(keys[k].Packet), m[bucketof(keys[k], tableLen)][at(keys, tableLen, k)+x] == keys[k].Packet[x]))
  inv [m map[int][]byte, i iter]: forall(k, 0, i, at(keys, tableLen, k) + len(keys[k].Packet) <= len(m[bucketof(keys[k], tableLen)]))
  ensures forall(b, 0, tableLen, len(result[b]) == blen(lam(k, bucketof(keys[k], tableLen)), lam(k, len(keys[k].Packet)), b, len(keys)))
  ensures forall(k, 0, len(keys), at(keys, tableLen, k) + len(keys[k].Packet) <= len(result[bucketof(keys[k], tableLen)]))
  ensures forall(k, 0, len(keys), forall(x, 0, len(keys[k].Packet), result[bucketof(keys[k], tableLen)][at(keys, tableLen, k)+x] == keys[k].Packet[x]))
  ensures forall(b, 0, tableLen, ref(result[b]) == 0 || fresh(result[b]))
  ensures forall(b, 0, tableLen, forall(c, 0, tableLen, imp(b != c && ref(result[b]) == ref(result[c]), ref(result[b]) == 0)))
