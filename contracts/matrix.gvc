pred wf(m) := m.rows >= 0 && m.cols >= 0 && len(m.data) == m.rows*m.cols

// the kernels address elements with 32-bit C integers
pred mulsize(a, b) := 0 < a.rows && a.rows < pow2(31) && 0 < a.cols && a.cols < pow2(31) && 0 < b.cols && b.cols < pow2(31) && 0 <= b.rows && a.rows*a.cols < pow2(31) && b.rows*b.cols < pow2(31) && a.rows*b.cols < pow2(31)

func matrix.New(r, c)
  prop C13
  requires r >= 0 && c >= 0
  fresh result, result.data
  ensures result.rows == r && result.cols == c && len(result.data) == r*c
  ensures forall(k, 0, r*c, result.data[k] == 0)

func matrix.NewWithData(r, c, data)
  prop C13
  fresh result
  ensures result.rows == r && result.cols == c && result.data == data

func matrix.Matrix.Set(m, r, c, v)
  prop C13
  requires 0 <= r && r < m.rows && 0 <= c && c < m.cols && wf(m)
  modifies m.data[*]
  ensures forall(k, 0, len(m.data), m.data[k] == ite(k == m.cols*r+c, v, old(m.data[k])))

func matrix.Matrix.Get(m, r, c)
  prop C13
  requires 0 <= r && r < m.rows && 0 <= c && c < m.cols && wf(m)
  ensures result == m.data[m.cols*r+c]

func matrix.Matrix.Add(a, b)
  prop C13
  requires wf(a) && wf(b) && (ref(a.data) != ref(b.data) || off(a.data) == off(b.data))
  refuses a.rows != b.rows || a.cols != b.cols
  modifies a.data[*]
  ensures forall(k, 0, len(a.data), a.data[k] == (old(a.data[k]) + old(b.data[k])) % pow2(32))

func matrix.Matrix.Sub(a, b)
  prop C13
  requires wf(a) && wf(b) && (ref(a.data) != ref(b.data) || off(a.data) == off(b.data))
  refuses a.rows != b.rows || a.cols != b.cols
  modifies a.data[*]
  ensures forall(k, 0, len(a.data), a.data[k] == (old(a.data[k]) - old(b.data[k])) % pow2(32))

func matrix.MatrixToBytes(in)
  prop C12
  requires wf(in) && in.rows < pow2(32) && in.cols < pow2(32)
  fresh result
  ensures len(result) == 8 + 4*len(in.data)
  ensures u32be(result, 0) == in.rows && u32be(result, 4) == in.cols
  ensures forall(k, 0, 4*len(in.data), result[8+k] == byteof(in.data[k/4], 3-k%4))

func matrix.BytesToMatrix(in)
  prop C12
  requires len(in) >= 8
  fresh result, result.data
  ensures result.rows == u32be(in, 0) && result.cols == u32be(in, 4)
  ensures len(result.data) == (len(in)-8)/4
  ensures forall(k, 0, len(result.data), result.data[k] == u32be(in, 8+4*k))

theorem matrix_roundtrip(m *matrix.Matrix)
  prop C12
  requires wf(m) && m.rows < pow2(32) && m.cols < pow2(32)
  call b := matrix.MatrixToBytes(m)
  call n := matrix.BytesToMatrix(b)
  ensures n.rows == m.rows && n.cols == m.cols && len(n.data) == len(m.data)
  ensures forall(k, 0, len(m.data), n.data[k] == m.data[k])
  ensures forall(k, 0, len(m.data), m.data[k] == old(m.data[k]))

func matrix.Mul(a, b)
  prop C13
  requires wf(a) && wf(b) && mulsize(a, b)
  refuses a.cols != b.rows
  fresh result, result.data
  ensures result.rows == a.rows && result.cols == b.cols && len(result.data) == a.rows*b.cols
  ensures forall(i, 0, a.rows, forall(j, 0, b.cols, result.data[b.cols*i+j] == dot32(seq(a.data), seq(b.data), a.cols, b.cols, i, j, a.cols)))

func matrix.BinaryMul(a, b)
  prop C13
  requires wf(a) && wf(b) && mulsize(a, b) && forall(k, 0, len(b.data), b.data[k] <= 1)
  refuses a.cols != b.rows
  fresh result, result.data
  ensures result.rows == a.rows && result.cols == b.cols && len(result.data) == a.rows*b.cols
  ensures forall(i, 0, a.rows, forall(j, 0, b.cols, result.data[b.cols*i+j] == bdot32(seq(a.data), seq(b.data), a.cols, b.cols, i, j, a.cols)))

func matrix.New128(r, c)
  prop C13
  requires r >= 0 && c >= 0
  fresh result, result.data
  ensures result.rows == r && result.cols == c && len(result.data) == r*c
  ensures forall(k, 0, r*c, result.data[k] == 0)

func matrix.Matrix128.Set(m, r, c, v)
  prop C13
  requires 0 <= r && r < m.rows && 0 <= c && c < m.cols && wf(m)
  modifies m.data[*]
  ensures forall(k, 0, len(m.data), m.data[k] == ite(k == m.cols*r+c, v, old(m.data[k])))

func matrix.Matrix128.Get(m, r, c)
  prop C13
  requires 0 <= r && r < m.rows && 0 <= c && c < m.cols && wf(m)
  ensures result == m.data[m.cols*r+c]

func matrix.Matrix128.Add(a, b)
  prop C13
  requires wf(a) && wf(b) && (ref(a.data) != ref(b.data) || off(a.data) == off(b.data))
  refuses a.rows != b.rows || a.cols != b.cols
  modifies a.data[*]
  ensures forall(k, 0, len(a.data), a.data[k] == (old(a.data[k]) + old(b.data[k])) % pow2(128))

func matrix.Matrix128.Sub(a, b)
  prop C13
  requires wf(a) && wf(b) && (ref(a.data) != ref(b.data) || off(a.data) == off(b.data))
  refuses a.rows != b.rows || a.cols != b.cols
  modifies a.data[*]
  ensures forall(k, 0, len(a.data), a.data[k] == (old(a.data[k]) - old(b.data[k])) % pow2(128))

func matrix.Mul128(a, b)
  prop C13
  uses dot128_ext
  requires wf(a) && wf(b) && mulsize(a, b)
  refuses a.cols != b.rows
  fresh result, result.data
  ensures result.rows == a.rows && result.cols == b.cols && len(result.data) == a.rows*b.cols
  ensures forall(i, 0, a.rows, forall(j, 0, b.cols, result.data[b.cols*i+j] == dot128(seq(a.data), seq(b.data), a.cols, b.cols, i, j, a.cols)))

func matrix.BinaryMul128(a, b)
  prop C13
  uses bdot128_ext
  requires wf(a) && wf(b) && mulsize(a, b) && forall(k, 0, len(b.data), b.data[k] <= 1)
  refuses a.cols != b.rows
  fresh result, result.data
  ensures result.rows == a.rows && result.cols == b.cols && len(result.data) == a.rows*b.cols
  ensures forall(i, 0, a.rows, forall(j, 0, b.cols, result.data[b.cols*i+j] == bdot128(seq(a.data), seq(b.data), a.cols, b.cols, i, j, a.cols)))

func matrix.NewBytes(r, c)
  prop C13
  requires r >= 0 && c >= 0
  fresh result, result.data
  ensures result.rows == r && result.cols == c && len(result.data) == r*c
  ensures forall(k, 0, r*c, result.data[k] == 0)

func matrix.MatrixBytes.Get(m, r, c)
  prop C13
  requires 0 <= r && r < m.rows && 0 <= c && c < m.cols && wf(m)
  ensures result == m.data[m.cols*r+c]

func matrix.MatrixBytes.SetData(m, i, v)
  prop C13
  requires 0 <= i && i < len(m.data)
  modifies m.data[*]
  ensures forall(k, 0, len(m.data), m.data[k] == ite(k == i, v, old(m.data[k])))

func matrix.Matrix128ToBytes(in)
  prop C12
  requires wf(in) && in.rows < pow2(32) && in.cols < pow2(32)
  fresh result
  ensures len(result) == 8 + 16*len(in.data)
  ensures u32be(result, 0) == in.rows && u32be(result, 4) == in.cols
  ensures forall(k, 0, 16*len(in.data), result[8+k] == byteof(in.data[k/16], k%16))

func matrix.BytesToMatrix128(in)
  prop C12
  requires len(in) >= 8
  fresh result, result.data
  ensures result.rows == u32be(in, 0) && result.cols == u32be(in, 4)
  ensures len(result.data) == (len(in)-8)/16
  ensures forall(k, 0, len(result.data), result.data[k] == u128le(in, 8+16*k))

theorem matrix128_roundtrip(m *matrix.Matrix128)
  prop C12
  requires wf(m) && m.rows < pow2(32) && m.cols < pow2(32)
  call b := matrix.Matrix128ToBytes(m)
  call n := matrix.BytesToMatrix128(b)
  ensures n.rows == m.rows && n.cols == m.cols && len(n.data) == len(m.data)
  ensures forall(k, 0, len(m.data), n.data[k] == m.data[k])
  ensures forall(k, 0, len(m.data), m.data[k] == old(m.data[k]))

pred shaped(in) := forall(m, 0, len(in), wf(in[m]) && in[m].rows < pow2(32) && in[m].cols < pow2(32))

