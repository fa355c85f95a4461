func utils.Uint32SliceToByteSlice(in)
  prop C12
  fresh result
  ensures len(result) == 4*len(in)
  ensures forall(k, 0, len(result), result[k] == byteof(in[k/4], 3-k%4))

func utils.ByteSliceToUint32Slice(in)
  prop C12
  fresh result
  ensures len(result) == len(in)/4
  ensures forall(k, 0, len(result), result[k] == u32be(in, 4*k))

func utils.ByteToBits(data)
  prop C12
  fresh result
  ensures len(result) == 8*len(data)
  ensures forall(k, 0, len(result), result[k] == bitbe(data[k/8], k%8))

theorem words_roundtrip(w []uint32)
  prop C12
  call b := utils.Uint32SliceToByteSlice(w)
  call v := utils.ByteSliceToUint32Slice(b)
  ensures len(v) == len(w) && forall(k, 0, len(w), v[k] == w[k])

// Pseudorandom generator: AES in counter mode over the key, here any function of the key.
assume utils.NewPRG(key)
  fresh result
  ensures heap("G:tape", result) == ufseq("prg", *key)
  ensures heap("G:pos", result) == 0

// Discrete Gaussian noise: the table has 129 magnitudes.
assume utils.MathRand()
  fresh result

func utils.GaussSample()
  prop C08 C09
  ensures -128 <= result && result <= 128
