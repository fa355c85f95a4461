// The discrete-log scheme: lib/client/dh.go, lib/server/dh.go,
// lib/database/elliptic.go. Group elements and scalars are abstract values, the
// group operations are abstract functions of them.

// the number that the bytes x[o:o+n] are in base 256
rec num(x bytes, o int, n int) int := ite(n <= 0, 0, num(x, o, n-1)*256 + int(x[o+n-1]))

lemma num_ext(x bytes, y bytes, o int, p int, n int, m int)
  requires n == m && forall(k, 0, n, x[o+k] == y[p+k])
  induct n m
  trigger num(x, o, n), num(y, p, m)
  ensures num(x, o, n) == num(y, p, m)

lemma num_nonneg(x bytes, o int, n int)
  induct n
  trigger num(x, o, n)
  ensures num(x, o, n) >= 0

iface github.com/cloudflare/circl/group.Group.Identity(g)
  fresh result
  ensures result != nil && heap("G:elem", result) == uf("g_identity", id(g))
iface github.com/cloudflare/circl/group.Group.NewElement(g)
  fresh result
  ensures result != nil && heap("G:elem", result) == uf("g_identity", id(g))
iface github.com/cloudflare/circl/group.Group.NewScalar(g)
  fresh result
  ensures result != nil
iface github.com/cloudflare/circl/group.Group.RandomScalar(g, rnd)
  fresh result
  modifies heap("G:pos", rnd)
  ensures result != nil
iface github.com/cloudflare/circl/group.Group.HashToElement(g, msg, dst)
  fresh result
  ensures result != nil && heap("G:elem", result) == ite(len(msg) == 8, uf("g_hashindex", id(g), u64le(msg, 0)), uf("g_hash", id(g), num(seq(msg), 0, len(msg)), len(msg)))
iface github.com/cloudflare/circl/group.Element.Add(e, x, y)
  modifies heap("G:elem", e)
  ensures ref(result) == ref(e) && heap("G:elem", e) == uf("g_add", old(heap("G:elem", x)), old(heap("G:elem", y)))
iface github.com/cloudflare/circl/group.Element.Mul(e, x, s)
  modifies heap("G:elem", e)
  ensures ref(result) == ref(e) && heap("G:elem", e) == uf("g_mul", old(heap("G:elem", x)), heap("G:scal", s))
iface github.com/cloudflare/circl/group.Element.IsIdentity(e)
  ensures result == ufbool("g_isidentity", heap("G:elem", e))
iface github.com/cloudflare/circl/group.Element.IsEqual(e, x)
  ensures result == (heap("G:elem", e) == heap("G:elem", x))
iface github.com/cloudflare/circl/group.Scalar.Neg(s, x)
  modifies heap("G:scal", s)
  ensures ref(result) == ref(s) && heap("G:scal", s) == uf("g_neg", old(heap("G:scal", x)))
iface github.com/cloudflare/circl/group.Element.UnmarshalBinary(e, b)
  modifies heap("G:elem", e)
  ensures iff(result == nil, ufbool("g_valid", num(seq(b), 0, len(b)), len(b)))
  ensures imp(result == nil, heap("G:elem", e) == uf("g_dec", num(seq(b), 0, len(b)), len(b)))

// the element that n bytes with the number v encode
pred okbytes(v, n) := v == 0 || ufbool("g_valid", v, n)
pred element(g, v, n) := ite(v == 0, uf("g_identity", id(g)), uf("g_dec", v, n))

func database.UnmarshalGroupElement(b, g)
  prop C11
  uses num_nonneg
  requires g != nil
  inv [i iter, z bool]: z == (num(seq(b), 0, i) == 0)
  fresh result0 if result1 == nil
  ensures iff(result1 == nil, okbytes(num(seq(b), 0, len(b)), len(b)))
  ensures imp(result1 == nil, result0 != nil && heap("G:elem", result0) == element(g, num(seq(b), 0, len(b)), len(b)))

func database.UnmarshalGroupElements(q, g, elemSize)
  prop C11
  uses num_ext
  requires g != nil
  requires elemSize >= 1
  inv [i iter, d []group.Element]: len(d) == i && forall(k, 0, i, okbytes(num(seq(q), k*elemSize, elemSize), elemSize))
  inv [i iter, d []group.Element]: forall(k, 0, i, heap("G:elem", d[k]) == element(g, num(seq(q), k*elemSize, elemSize), elemSize))
  ensures imp(result1 == nil, len(q)%elemSize == 0 && len(result0)*elemSize == len(q))
  ensures imp(result1 == nil, forall(k, 0, len(result0), heap("G:elem", result0[k]) == element(g, num(seq(q), k*elemSize, elemSize), elemSize)))

// the answered element of row i divided by the row digest raised to the secret
pred quotient(c, a, i) := uf("g_add", uf("g_mul", element(c.dbInfo.Auth.Group, num(seq(c.dbInfo.Auth.SubDigests), i*c.dbInfo.Auth.ElementSize, c.dbInfo.Auth.ElementSize), c.dbInfo.Auth.ElementSize), uf("g_neg", heap("G:scal", c.state.r))), element(c.dbInfo.Auth.Group, num(seq(a), i*c.dbInfo.Auth.ElementSize, c.dbInfo.Auth.ElementSize), c.dbInfo.Auth.ElementSize))
pred consistent(c, a, i) := ufbool("g_isidentity", quotient(c, a, i)) || quotient(c, a, i) == heap("G:elem", c.state.ht)

func client.DH.ReconstructBytes(c, a)
  prop C11
  uses num_ext
  requires c.dbInfo.Auth.Group != nil && c.dbInfo.Auth.ElementSize >= 1 && c.dbInfo.NumRows >= 0
  requires len(c.dbInfo.Auth.SubDigests) >= c.dbInfo.NumRows*c.dbInfo.Auth.ElementSize
  inv [i iter]: forall(k, 0, i, consistent(c, a, k))
  inv [i iter, r byte]: imp(c.state.ix >= 0, r == ite(i <= c.state.ix, byte(0), ite(ufbool("g_isidentity", quotient(c, a, c.state.ix)), byte(0), byte(1))))
  ensures imp(result1 == nil, len(a) == c.dbInfo.NumRows*c.dbInfo.Auth.ElementSize)
  ensures imp(result1 == nil, forall(i, 0, c.dbInfo.NumRows, consistent(c, a, i)))
  ensures imp(result1 == nil && 0 <= c.state.ix && c.state.ix < c.dbInfo.NumRows, asbyte(result0) == ite(ufbool("g_isidentity", quotient(c, a, c.state.ix)), byte(0), byte(1)))

func database.HashIndexToGroup(j, g)
  prop C11
  requires g != nil
  fresh result
  ensures result != nil && heap("G:elem", result) == uf("g_hashindex", id(g), j)

func database.CommitScalarToIndex(x, j, g)
  prop C11
  requires g != nil
  fresh result
  ensures result != nil && heap("G:elem", result) == uf("g_mul", uf("g_hashindex", id(g), j), heap("G:scal", x))

// the product of the elements e whose bit in x[o:o+n] is set
rec gprod(g int, x bytes, o int, e ints, n int) int := ite(n <= 0, uf("g_identity", g), ite(x[o+n-1] == 1, uf("g_add", gprod(g, x, o, e, n-1), e[n-1]), gprod(g, x, o, e, n-1)))

lemma gprod_ext(g int, h int, x bytes, y bytes, o int, p int, e ints, f ints, n int, m int)
  requires g == h && n == m && forall(k, 0, n, x[o+k] == y[p+k]) && forall(k, 0, n, e[k] == f[k])
  induct n m
  trigger gprod(g, x, o, e, n), gprod(h, y, p, f, m)
  ensures gprod(g, x, o, e, n) == gprod(h, y, p, f, m)

func server.DH.processRows(s, begin, end, input, replyTo)
  prop C11
  uses gprod_ext
  requires 0 <= begin && begin <= end && s.db.NumColumns >= 0 && len(input) >= s.db.NumColumns && len(s.db.Entries) >= end*s.db.NumColumns
  requires s.db.Info.Auth.Group != nil
  requires sent(replyTo) == 0 && received(replyTo) == 0 && closed(replyTo) == 0
  requires forall(k, 0, len(input), input[k] != nil)
  inv [i iter, p []group.Element]: forall(k, 0, i, heap("G:elem", p[k]) == gprod(id(s.db.Info.Auth.Group), seq(s.db.Entries), (begin+k)*s.db.NumColumns, lam(j, old(heap("G:elem", input[j]))), s.db.NumColumns))
  inv [j iter, i outer, p []group.Element]: heap("G:elem", p[i]) == gprod(id(s.db.Info.Auth.Group), seq(s.db.Entries), (begin+i)*s.db.NumColumns, lam(x, old(heap("G:elem", input[x]))), j)
  modifies chan replyTo
  ensures sent(replyTo) == 1 && received(replyTo) == 0 && closed(replyTo) == 0 && len(msg(replyTo, 0)) == end-begin
  ensures forall(k, 0, end-begin, heap("G:elem", msg(replyTo, 0)[k]) == gprod(id(s.db.Info.Auth.Group), seq(s.db.Entries), (begin+k)*s.db.NumColumns, lam(j, old(heap("G:elem", input[j]))), s.db.NumColumns))
