// Field elements: lib/field/field.go. The modulus is 2^31-1.

func field.toElement(in)
  prop C14
  requires len(in) >= 4
  modifies in[*]
  ensures result == old(u32be(in, 0)) % 2147483648 % field.ModP
  ensures forall(k, 1, len(in), in[k] == old(in[k]))

func field.BytesToElements(out, in)
  prop C14
  requires len(in) >= 4*len(out)
  modifies out[*], in[*]
  ensures forall(k, 0, len(out), out[k] == old(u32be(in, 4*k)) % 2147483648 % field.ModP)
  ensures forall(k, 0, len(out), out[k] < field.ModP)

func field.RandElementWithPRG(rnd)
  prop C14
  option readok
  modifies heap("G:pos", rnd)
  ensures result < field.ModP
  ensures heap("G:pos", rnd) >= old(heap("G:pos", rnd)) + 4
  ensures (heap("G:pos", rnd) - old(heap("G:pos", rnd))) % 4 == 0
  ensures result == u32be(heap("G:tape", rnd), heap("G:pos", rnd) - 4) % 2147483648
  ensures forall(t, 0, (heap("G:pos", rnd) - old(heap("G:pos", rnd)))/4 - 1, u32be(heap("G:tape", rnd), old(heap("G:pos", rnd)) + 4*t) % 2147483648 == field.ModP)

func field.RandVectorWithPRG(length, rnd)
  prop C14
  option readok
  requires length >= 0
  inv [i iter, o []uint32]: forall(k, 0, i, o[k] < field.ModP)
  inv [i iter, o []uint32]: forall(k, 0, i, imp(u32be(heap("G:tape", rnd), old(heap("G:pos", rnd)) + 4*k) % 2147483648 != field.ModP, o[k] == u32be(heap("G:tape", rnd), old(heap("G:pos", rnd)) + 4*k) % 2147483648))
  inv [i outer, o []uint32]: forall(k, 0, i, o[k] < field.ModP)
  inv [i outer, o []uint32]: forall(k, 0, i, imp(u32be(heap("G:tape", rnd), old(heap("G:pos", rnd)) + 4*k) % 2147483648 != field.ModP, o[k] == u32be(heap("G:tape", rnd), old(heap("G:pos", rnd)) + 4*k) % 2147483648))
  inv [i outer, o []uint32]: o[i] <= field.ModP && imp(u32be(heap("G:tape", rnd), old(heap("G:pos", rnd)) + 4*i) % 2147483648 != field.ModP, o[i] == u32be(heap("G:tape", rnd), old(heap("G:pos", rnd)) + 4*i) % 2147483648)
  modifies heap("G:pos", rnd)
  fresh result
  ensures len(result) == length
  ensures forall(k, 0, length, result[k] < field.ModP)
  ensures forall(k, 0, length, imp(u32be(heap("G:tape", rnd), old(heap("G:pos", rnd)) + 4*k) % 2147483648 != field.ModP, result[k] == u32be(heap("G:tape", rnd), old(heap("G:pos", rnd)) + 4*k) % 2147483648))
  ensures heap("G:pos", rnd) >= old(heap("G:pos", rnd)) + 4*length
