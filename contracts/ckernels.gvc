// The C multiplication kernels (lib/matrix/matrix.c), translated mechanically.

rec dot32(a u32s, b u32s, ac int, bc int, i int, j int, n int) u32 :=
    ite(n <= 0, 0, (dot32(a, b, ac, bc, i, j, n-1) + a[ac*i+n-1]*b[bc*(n-1)+j]) % 4294967296)

rec bdot32(a u32s, b bytes, ac int, bc int, i int, j int, n int) u32 :=
    ite(n <= 0, 0, (bdot32(a, b, ac, bc, i, j, n-1) + ite(b[bc*(n-1)+j] == 0, 0, a[ac*i+n-1])) % 4294967296)

rec dot128(a u128s, b u128s, ac int, bc int, i int, j int, n int) u128 :=
    ite(n <= 0, 0, (dot128(a, b, ac, bc, i, j, n-1) + a[ac*i+n-1]*b[bc*(n-1)+j]) % pow2(128))

rec bdot128(a u128s, b bytes, ac int, bc int, i int, j int, n int) u128 :=
    ite(n <= 0, 0, (bdot128(a, b, ac, bc, i, j, n-1) + ite(b[bc*(n-1)+j] == 0, 0, a[ac*i+n-1])) % pow2(128))

// the dot products only depend on the entries they use
lemma dot128_ext(a u128s, c u128s, b u128s, d u128s, ac int, bc int, i int, j int, n int)
  requires forall(k, 0, n, a[ac*i+k] == c[ac*i+k]) && forall(k, 0, n, b[bc*k+j] == d[bc*k+j])
  induct n
  trigger dot128(a, b, ac, bc, i, j, n), dot128(c, d, ac, bc, i, j, n)
  ensures dot128(a, b, ac, bc, i, j, n) == dot128(c, d, ac, bc, i, j, n)

lemma bdot128_ext(a u128s, c u128s, b bytes, ac int, bc int, i int, j int, n int)
  requires forall(k, 0, n, a[ac*i+k] == c[ac*i+k])
  induct n
  trigger bdot128(a, b, ac, bc, i, j, n), bdot128(c, b, ac, bc, i, j, n)
  ensures bdot128(a, b, ac, bc, i, j, n) == bdot128(c, b, ac, bc, i, j, n)

func ckernels.multiply(ar, ac, bc, a, b, out)
  prop C13
  requires 0 <= ar && ar < pow2(31) && 0 <= ac && ac < pow2(31) && 0 <= bc && bc < pow2(31) && ar*ac < pow2(31) && ac*bc < pow2(31) && ar*bc < pow2(31)
  requires len(a) >= ar*ac && len(b) >= ac*bc && len(out) >= ar*bc
  requires ref(out) != ref(a) && ref(out) != ref(b)
  modifies out[*]
  option nogen
  inv [i iter]: forall(x, 0, i, forall(y, 0, bc, out[bc*x+y] == (old(out[bc*x+y]) + dot32(seq(a), seq(b), ac, bc, x, y, ac)) % 4294967296))
  inv [i iter]: forall(z, bc*i, len(out), out[z] == old(out[z]))
  inv [i outer, k iter]: forall(y, 0, bc, out[bc*i+y] == (old(out[bc*i+y]) + dot32(seq(a), seq(b), ac, bc, i, y, k)) % 4294967296)
  inv [i outer]: forall(z, bc*i+bc, len(out), out[z] == old(out[z]))
  ensures forall(i, 0, ar, forall(j, 0, bc, out[bc*i+j] == (old(out[bc*i+j]) + dot32(seq(a), seq(b), ac, bc, i, j, ac)) % 4294967296))

func ckernels.binary_multiply(ar, ac, bc, a, b, out)
  prop C13
  requires 0 <= ar && ar < pow2(31) && 0 <= ac && ac < pow2(31) && 0 <= bc && bc < pow2(31) && ar*ac < pow2(31) && ac*bc < pow2(31) && ar*bc < pow2(31)
  requires len(a) >= ar*ac && len(b) >= ac*bc && len(out) >= ar*bc
  requires ref(out) != ref(a) && ref(out) != ref(b)
  requires forall(k, 0, ac*bc, b[k] <= 1)
  modifies out[*]
  option nogen
  inv [i iter]: forall(x, 0, i, forall(y, 0, bc, out[bc*x+y] == (old(out[bc*x+y]) + bdot32(seq(a), seq(b), ac, bc, x, y, ac)) % 4294967296))
  inv [i iter]: forall(z, bc*i, len(out), out[z] == old(out[z]))
  inv [i outer, k iter]: forall(y, 0, bc, out[bc*i+y] == (old(out[bc*i+y]) + bdot32(seq(a), seq(b), ac, bc, i, y, k)) % 4294967296)
  inv [i outer]: forall(z, bc*i+bc, len(out), out[z] == old(out[z]))
  ensures forall(i, 0, ar, forall(j, 0, bc, out[bc*i+j] == (old(out[bc*i+j]) + bdot32(seq(a), seq(b), ac, bc, i, j, ac)) % 4294967296))

func ckernels.multiply128(ar, ac, bc, a, b, out)
  prop C13
  requires 0 <= ar && ar < pow2(31) && 0 <= ac && ac < pow2(31) && 0 <= bc && bc < pow2(31) && ar*ac < pow2(31) && ac*bc < pow2(31) && ar*bc < pow2(31)
  requires len(a) >= ar*ac && len(b) >= ac*bc && len(out) >= ar*bc
  requires ref(out) != ref(a) && ref(out) != ref(b)
  modifies out[*]
  option nogen
  inv [i iter]: forall(x, 0, i, forall(y, 0, bc, out[bc*x+y] == (old(out[bc*x+y]) + dot128(seq(a), seq(b), ac, bc, x, y, ac)) % pow2(128)))
  inv [i iter]: forall(z, bc*i, len(out), out[z] == old(out[z]))
  inv [i outer, k iter]: forall(y, 0, bc, out[bc*i+y] == (old(out[bc*i+y]) + dot128(seq(a), seq(b), ac, bc, i, y, k)) % pow2(128))
  inv [i outer]: forall(z, bc*i+bc, len(out), out[z] == old(out[z]))
  ensures forall(i, 0, ar, forall(j, 0, bc, out[bc*i+j] == (old(out[bc*i+j]) + dot128(seq(a), seq(b), ac, bc, i, j, ac)) % pow2(128)))

func ckernels.binary_multiply128(ar, ac, bc, a, b, out)
  prop C13
  requires 0 <= ar && ar < pow2(31) && 0 <= ac && ac < pow2(31) && 0 <= bc && bc < pow2(31) && ar*ac < pow2(31) && ac*bc < pow2(31) && ar*bc < pow2(31)
  requires len(a) >= ar*ac && len(b) >= ac*bc && len(out) >= ar*bc
  requires ref(out) != ref(a) && ref(out) != ref(b)
  requires forall(k, 0, ac*bc, b[k] <= 1)
  modifies out[*]
  option nogen
  inv [i iter]: forall(x, 0, i, forall(y, 0, bc, out[bc*x+y] == (old(out[bc*x+y]) + bdot128(seq(a), seq(b), ac, bc, x, y, ac)) % pow2(128)))
  inv [i iter]: forall(z, bc*i, len(out), out[z] == old(out[z]))
  inv [i outer, k iter]: forall(y, 0, bc, out[bc*i+y] == (old(out[bc*i+y]) + bdot128(seq(a), seq(b), ac, bc, i, y, k)) % pow2(128))
  inv [i outer]: forall(z, bc*i+bc, len(out), out[z] == old(out[z]))
  ensures forall(i, 0, ar, forall(j, 0, bc, out[bc*i+j] == (old(out[bc*i+j]) + bdot128(seq(a), seq(b), ac, bc, i, j, ac)) % pow2(128)))
