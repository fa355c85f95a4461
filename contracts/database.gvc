// Database constructors: lib/database.

pred constdb(d, r, c, b, l) := d.NumRows == r && d.NumColumns == c && d.BlockSize == b && len(d.BlockLengths) == r*c && forall(k, 0, r*c, d.BlockLengths[k] == l)

func database.CreateZeroBytes(numRows, numColumns, blockLen)
  prop C15
  requires numRows >= 0 && numColumns >= 0 && blockLen >= 0
  fresh result, result.Entries, result.BlockLengths, result.Merkle
  ensures constdb(result, numRows, numColumns, blockLen, blockLen)
  ensures len(result.Entries) == numRows*numColumns*blockLen && forall(k, 0, numRows*numColumns*blockLen, result.Entries[k] == 0)

func database.InitBytes(numRows, numColumns, blockLen)
  prop C15 C16
  requires numRows >= 0 && numColumns >= 0 && blockLen >= 0
  fresh result, result.Entries, result.BlockLengths, result.Merkle
  ensures constdb(result, numRows, numColumns, blockLen, 0)
  ensures len(result.Entries) == 0

func database.CreateRandomBytes(rnd, dbLen, numRows, blockLen)
  prop C15
  option readok
  requires numRows >= 1 && blockLen >= 1 && dbLen >= 0
  modifies heap("G:pos", rnd)
  fresh result, result.Entries, result.BlockLengths, result.Merkle
  ensures constdb(result, numRows, dbLen/(8*numRows*blockLen), blockLen, blockLen)
  ensures len(result.Entries) == numRows*(dbLen/(8*numRows*blockLen))*blockLen
  ensures forall(k, 0, len(result.Entries), result.Entries[k] == heap("G:tape", rnd)[old(heap("G:pos", rnd)) + k])

// entry i,j of the product of the matrix whose entries are the words of t with
// the bits b
rec tdot32(t bytes, b bytes, ac int, bc int, i int, j int, n int) u32 :=
    ite(n <= 0, 0, (tdot32(t, b, ac, bc, i, j, n-1) + ite(b[bc*(n-1)+j] == 0, 0, u32le(t, 4*(ac*i+n-1)))) % 4294967296)

rec tdot128(t bytes, b bytes, ac int, bc int, i int, j int, n int) u128 :=
    ite(n <= 0, 0, (tdot128(t, b, ac, bc, i, j, n-1) + ite(b[bc*(n-1)+j] == 0, 0, u128le(t, 16*(ac*i+n-1)))) % pow2(128))

lemma tdot32_is(a u32s, t bytes, b bytes, ac int, bc int, i int, j int, n int)
  requires forall(k, 0, n, a[ac*i+k] == u32le(t, 4*(ac*i+k)))
  induct n
  trigger bdot32(a, b, ac, bc, i, j, n), tdot32(t, b, ac, bc, i, j, n)
  ensures bdot32(a, b, ac, bc, i, j, n) == tdot32(t, b, ac, bc, i, j, n)

lemma tdot128_is(a u128s, t bytes, b bytes, ac int, bc int, i int, j int, n int)
  requires forall(k, 0, n, a[ac*i+k] == u128le(t, 16*(ac*i+k)))
  induct n
  trigger bdot128(a, b, ac, bc, i, j, n), tdot128(t, b, ac, bc, i, j, n)
  ensures bdot128(a, b, ac, bc, i, j, n) == tdot128(t, b, ac, bc, i, j, n)

pred bits01(m) := forall(k, 0, len(m.data), m.data[k] <= 1)

// N is the dimension fixed in utils.ParamsDefault
func database.Digest(db, rows)
  prop C15 C08
  uses tdot32_is
  requires wf(db.Matrix) && db.Matrix.rows == rows && rows > 0 && db.Matrix.cols > 0 && 1100*rows < pow2(31) && db.Matrix.cols < pow2(31) && rows*db.Matrix.cols < pow2(31) && 1100*db.Matrix.cols < pow2(31)
  requires bits01(db.Matrix)
  fresh result, result.data
  ensures result.rows == 1100 && result.cols == db.Matrix.cols && len(result.data) == 1100*db.Matrix.cols
  ensures forall(i, 0, 1100, forall(j, 0, db.Matrix.cols, result.data[db.Matrix.cols*i+j] == tdot32(ufseq("prg", utils.SeedMatrixA), seq(db.Matrix.data), rows, db.Matrix.cols, i, j, rows)))

func database.Digest128(db, rows)
  prop C15 C09
  uses tdot128_is
  requires wf(db.Matrix) && db.Matrix.rows == rows && rows > 0 && db.Matrix.cols > 0 && 4800*rows < pow2(31) && db.Matrix.cols < pow2(31) && rows*db.Matrix.cols < pow2(31) && 4800*db.Matrix.cols < pow2(31)
  requires bits01(db.Matrix)
  fresh result, result.data
  ensures result.rows == 4800 && result.cols == db.Matrix.cols && len(result.data) == 4800*db.Matrix.cols
  ensures forall(i, 0, 4800, forall(j, 0, db.Matrix.cols, result.data[db.Matrix.cols*i+j] == tdot128(ufseq("prg", utils.SeedMatrixA), seq(db.Matrix.data), rows, db.Matrix.cols, i, j, rows)))

func database.CreateRandomBinaryLWE(rnd, numRows, numColumns)
  prop C15
  option readok
  requires 0 < numRows && 0 < numColumns && 1100*numRows < pow2(31) && numRows*numColumns < pow2(31) && 1100*numColumns < pow2(31)
  inv [i iter, m *matrix.MatrixBytes]: forall(k, 0, i, m.data[k] == ite(bit(heap("G:tape", rnd), 8*old(heap("G:pos", rnd)) + k), 1, 0))
  modifies heap("G:pos", rnd)
  fresh result, result.Matrix, result.Matrix.data, result.Auth, result.Auth.DigestLWE, result.Auth.DigestLWE.data
  ensures result.NumRows == numRows && result.NumColumns == numColumns && result.BlockSize == 1
  ensures result.Matrix.rows == numRows && result.Matrix.cols == numColumns && len(result.Matrix.data) == numRows*numColumns
  ensures forall(k, 0, numRows*numColumns, result.Matrix.data[k] == ite(bit(heap("G:tape", rnd), 8*old(heap("G:pos", rnd)) + k), 1, 0))
  ensures result.Auth.DigestLWE.rows == 1100 && result.Auth.DigestLWE.cols == numColumns && len(result.Auth.DigestLWE.data) == 1100*numColumns
  ensures forall(i, 0, 1100, forall(j, 0, numColumns, result.Auth.DigestLWE.data[numColumns*i+j] == tdot32(ufseq("prg", utils.SeedMatrixA), seq(result.Matrix.data), numRows, numColumns, i, j, numRows)))

func database.CreateRandomBinaryLWE128(rnd, numRows, numColumns)
  prop C15
  option readok
  requires 0 < numRows && 0 < numColumns && 4800*numRows < pow2(31) && numRows*numColumns < pow2(31) && 4800*numColumns < pow2(31)
  inv [i iter, m *matrix.MatrixBytes]: forall(k, 0, i, m.data[k] == ite(bit(heap("G:tape", rnd), 8*old(heap("G:pos", rnd)) + k), 1, 0))
  modifies heap("G:pos", rnd)
  fresh result, result.Matrix, result.Matrix.data, result.Auth, result.Auth.DigestLWE128, result.Auth.DigestLWE128.data
  ensures result.NumRows == numRows && result.NumColumns == numColumns && result.BlockSize == 1
  ensures result.Matrix.rows == numRows && result.Matrix.cols == numColumns && len(result.Matrix.data) == numRows*numColumns
  ensures forall(k, 0, numRows*numColumns, result.Matrix.data[k] == ite(bit(heap("G:tape", rnd), 8*old(heap("G:pos", rnd)) + k), 1, 0))
  ensures result.Auth.DigestLWE128.rows == 4800 && result.Auth.DigestLWE128.cols == numColumns && len(result.Auth.DigestLWE128.data) == 4800*numColumns
  ensures forall(i, 0, 4800, forall(j, 0, numColumns, result.Auth.DigestLWE128.data[numColumns*i+j] == tdot128(ufseq("prg", utils.SeedMatrixA), seq(result.Matrix.data), numRows, numColumns, i, j, numRows)))

func database.CreateRandomBitsDB(rnd, dbLen, numRows, blockLen)
  prop C15
  option readok
  requires numRows >= 1 && blockLen >= 1 && dbLen >= 0
  inv [i iter, d *database.DB]: forall(k, 0, len(d.BlockLengths), imp(k*blockLen < i, d.BlockLengths[k] == blockLen))
  modifies heap("G:pos", rnd)
  fresh result0 if result1 == nil, result0.Entries if result1 == nil, result0.BlockLengths if result1 == nil
  ensures imp(result1 == nil, constdb(result0, numRows, max(1, dbLen/(32*numRows*blockLen)), blockLen, blockLen))
  ensures imp(result1 == nil, len(result0.Entries) == numRows*max(1, dbLen/(32*numRows*blockLen))*blockLen)
  ensures imp(result1 == nil, forall(k, 0, len(result0.Entries), result0.Entries[k] == u32be(heap("G:tape", rnd), old(heap("G:pos", rnd)) + 4*k) % 2147483648 % field.ModP))
