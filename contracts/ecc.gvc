// Repetition code and majority decoding: lib/ecc/ecc.go.

rec cnt(s u32s, x u32, n int) int := ite(n <= 0, 0, cnt(s, x, n-1) + ite(s[n-1] == x, 1, 0))

func ecc.New(t)
  prop C10
  fresh result
  ensures result.t == t

func ecc.ECC.Encode(e, in)
  prop C10
  requires e.t >= 0
  fresh result
  ensures len(result) == 2*e.t+1
  ensures forall(k, 0, len(result), result[k] == in)

func ecc.ECC.Decode(e, in)
  prop C10
  requires len(in) >= 1
  inv [i iter, d uint32, v int]: v >= 0 && 2*cnt(seq(in), d, i) <= i + v
  inv [i iter, d uint32, v int]: forall(x, 0, pow2(32), imp(x != d, 2*cnt(seq(in), x, i) <= i - v))
  inv [i iter, d uint32, v int]: v >= 0 && 2*cnt(seq(in), d, i+1) <= i+1 + v
  inv [i iter, d uint32, v int]: forall(x, 0, pow2(32), imp(x != d, 2*cnt(seq(in), x, i+1) <= i+1 - v))
  inv [i iter, d uint32, v int]: v == cnt(seq(in), d, i)
  ensures imp(result1 == nil, 2*cnt(seq(in), result0, len(in)) > len(in))
  ensures forall(x, 0, pow2(32), imp(2*cnt(seq(in), x, len(in)) > len(in), result1 == nil && result0 == x))
  ensures imp(2*cnt(seq(in), 0, len(in)) > len(in), result1 == nil && result0 == 0)
  ensures imp(2*cnt(seq(in), 1, len(in)) > len(in), result1 == nil && result0 == 1)

lemma cnt_ext(s u32s, r u32s, x u32, n int)
  requires forall(k, 0, n, s[k] == r[k])
  induct n
  trigger cnt(s, x, n), cnt(r, x, n)
  ensures cnt(s, x, n) == cnt(r, x, n)
