package main

// Trusted models of functions outside the repository.

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(ex *Exec, st *State, ci *callInfo, args []Val) Val

var intrinsics map[string]intrinsic

var freshIntrinsics = map[string]bool{}

var u8 = types.Typ[types.Uint8]

func (ex *Exec) newErr(ci *callInfo) Val {
	return &IfaceV{id: App("sub:err:"+ex.w.pos(ci.pos), SubSort)}
}

func (ex *Exec) freshStr() *StrV {
	s := &StrV{ex.fresh("str", ArrSort(Int, BV8)), N(0), ex.fresh("strlen", Nat)}
	return s
}

func putLE(n int, big bool) intrinsic {
	return func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
		s, v := args[1].(*SliceV), args[2].(*Term)
		ex.check(st, "index", ci.name, ci.pos, Ge(s.len, N(int64(n))))
		hi := heapInfo{BV8, false, 2}
		h := ex.heap(st, "E:uint8", hi)
		c := Select(h, s.ref)
		for i := 0; i < n; i++ {
			p := i
			if big {
				p = n - 1 - i
			}
			c = Store(c, AddC(s.off, int64(p)), byteOf(v, i))
		}
		ex.setHeap(st, "E:uint8", hi, Store(h, s.ref, c))
		return nil
	}
}

func getLE(n int, big bool) intrinsic {
	return func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
		s := args[1].(*SliceV)
		ex.check(st, "index", ci.name, ci.pos, Ge(s.len, N(int64(n))))
		a := ex.sliceArr(st, u8, s)[0]
		var bs []*Term
		for i := 0; i < n; i++ {
			p := i
			if big {
				p = n - 1 - i
			}
			bs = append(bs, Select(a, AddC(s.off, int64(p))))
		}
		return composeLE(bs)
	}
}

func fl1(name string) intrinsic {
	return func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
		return App(name, FloatSort, args[0].(*Term))
	}
}

// readInto delivers the next bytes of a reader's tape.
func (ex *Exec) readInto(st *State, r *Term, s *SliceV) Val {
	ex.tapeCopy(st, r, s)
	e := ex.fresh("rerr", Int)
	n := ex.fresh("rn", Nat)
	// readers either fill the buffer or return an error
	ex.fact(True, And(Ge(n, N(0)), Le(n, s.len), Imp(Eq(e, N(0)), Eq(n, s.len))))
	return TupleV{n, &IfaceV{id: e}}
}

func (ex *Exec) tapeCopy(st *State, r *Term, s *SliceV) {
	ti, pi := ghostHeaps["G:tape"], ghostHeaps["G:pos"]
	tape := Select(ex.heap(st, "G:tape", ti), r)
	ph := ex.heap(st, "G:pos", pi)
	pos := Select(ph, r)
	ex.fact(True, Ge(pos, N(0)))
	ex.writeRange(st, u8, s.ref, s.off, s.len, []*Term{tape}, pos)
	ex.setHeap(st, "G:pos", pi, Store(ph, r, Add(pos, s.len)))
}

func ifaceRef(v Val) *Term {
	return refOf(v)
}

func init() {
	intrinsics = map[string]intrinsic{
		"math.Ceil": fl1("fceil"), "math.Floor": fl1("ffloor"), "math.Sqrt": fl1("fsqrt"), "math.Log2": fl1("flog2"),
		"math.Exp2": fl1("fexp2"), "math.Log": fl1("flog"), "math.Trunc": fl1("ftrunc"), "math.Exp": fl1("fexp"), "math.Abs": fl1("fabs"),
		"math.Round": fl1("fround"),
		"math.Pow": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			return App("fpow", FloatSort, args[0].(*Term), args[1].(*Term))
		},
		"math.Modf": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			x := args[0].(*Term)
			return TupleV{App("ftrunc", FloatSort, x), App("ffrac", FloatSort, x)}
		},
		"errors.New":                  func(ex *Exec, st *State, ci *callInfo, args []Val) Val { return ex.newErr(ci) },
		"fmt.Errorf":                  func(ex *Exec, st *State, ci *callInfo, args []Val) Val { return ex.newErr(ci) },
		"golang.org/x/xerrors.Errorf": func(ex *Exec, st *State, ci *callInfo, args []Val) Val { return ex.newErr(ci) },
		"golang.org/x/xerrors.New":    func(ex *Exec, st *State, ci *callInfo, args []Val) Val { return ex.newErr(ci) },
		"errors.Wrap":                 func(ex *Exec, st *State, ci *callInfo, args []Val) Val { return ex.newErr(ci) },
		"github.com/pkg/errors.New":   func(ex *Exec, st *State, ci *callInfo, args []Val) Val { return ex.newErr(ci) },
		"github.com/pkg/errors.Wrap":  func(ex *Exec, st *State, ci *callInfo, args []Val) Val { return ex.newErr(ci) },
		"fmt.Sprintf":                 func(ex *Exec, st *State, ci *callInfo, args []Val) Val { return ex.freshStr() },
		"fmt.Sprint":                  func(ex *Exec, st *State, ci *callInfo, args []Val) Val { return ex.freshStr() },
		"fmt.Println":                 nop, "fmt.Printf": nop, "fmt.Print": nop, "log.Println": nop, "log.Printf": nop, "log.Print": nop,
		"runtime.GC": nop, "runtime.KeepAlive": nop, "sync.WaitGroup.Add": nop, "sync.WaitGroup.Done": nop, "sync.WaitGroup.Wait": nop,
		"context.Background": freshResult, "google.golang.org/grpc.ClientConn.Target": freshResult,
		"context.WithTimeout": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			return TupleV{ex.symVal("ctx", ci.sig.Results().At(0).Type()), &FuncV{nop: true}}
		},
		"runtime.NumCPU": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			// the number of processors of this machine; positive
			n := App("numcpu", Nat)
			ex.fact(True, Ge(n, N(1)))
			return n
		},
		"runtime.NumGoroutine": freshResult, "time.Now": freshResult, "time.Since": freshResult,
		"runtime.GOMAXPROCS": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			n := App("maxprocs", Nat)
			ex.fact(True, Ge(n, N(1)))
			return n
		},
		"log.Fatal": fatal, "log.Fatalf": fatal, "log.Fatalln": fatal, "log.Panic": fatal, "log.Panicf": fatal, "os.Exit": fatal,
		"encoding/binary.littleEndian.PutUint16": putLE(2, false), "encoding/binary.bigEndian.PutUint16": putLE(2, true),
		"encoding/binary.littleEndian.PutUint32": putLE(4, false), "encoding/binary.bigEndian.PutUint32": putLE(4, true),
		"encoding/binary.littleEndian.PutUint64": putLE(8, false), "encoding/binary.bigEndian.PutUint64": putLE(8, true),
		"encoding/binary.littleEndian.Uint16": getLE(2, false), "encoding/binary.bigEndian.Uint16": getLE(2, true),
		"encoding/binary.littleEndian.Uint32": getLE(4, false), "encoding/binary.bigEndian.Uint32": getLE(4, true),
		"encoding/binary.littleEndian.Uint64": getLE(8, false), "encoding/binary.bigEndian.Uint64": getLE(8, true),
		"math/bits.LeadingZeros8": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			r := N(8)
			for i := 0; i < 8; i++ {
				r = Ite(Eq(Extract(i, i, args[0].(*Term)), BVc(one, 1)), N(int64(7-i)), r)
			}
			return r
		},
		"math/rand.Rand.Intn": randn, "math/rand.Rand.Int63n": randn, "math/rand.Rand.Int31n": randn,
		"math/rand.Intn": randn0, "math/rand.Int63n": randn0, "math/rand.Int31n": randn0,
		"math/rand.Rand.Float64": freshResult, "math/rand.Rand.Uint64": freshResult, "math/rand.Rand.Uint32": freshResult,
		"math/rand.Rand.Int63": randpos, "math/rand.Rand.Int31": randpos, "math/rand.Rand.Int": randpos,
		"bytes.Equal": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			a, b := args[0].(*SliceV), args[1].(*SliceV)
			x, y := ex.sliceArr(st, u8, a)[0], ex.sliceArr(st, u8, b)[0]
			return strEq(&StrV{x, a.off, a.len}, &StrV{y, b.off, b.len})
		},
		"bytes.TrimRightFunc": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			f, ok := args[1].(*FuncV)
			if !ok || f.fn == nil {
				bail("TrimRightFunc with an unknown function")
			}
			r := ex.fresh("rune", Int)
			ex.fact(True, And(Ge(r, N(0)), Le(r, N(0x10ffff))))
			p, ok := ex.callFn(st, f.fn, []Val{r}, f.binds, ci.pos).(*Term)
			if !ok {
				bail("TrimRightFunc")
			}
			return ex.trimRight(st, ci, args[0].(*SliceV), r, p)
		},
		"bytes.TrimRight": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			c, ok := args[1].(*StrV)
			if !ok || !c.len.isNum() || c.len.num.Int64() > 8 {
				bail("TrimRight with an unknown cutset")
			}
			r := ex.fresh("rune", Int)
			p := False
			for i := int64(0); i < c.len.num.Int64(); i++ {
				x := Select(c.arr, AddC(c.off, i))
				ex.check(st, "ascii", "cutset", ci.pos, Lt(toInt(x), N(128)))
				p = Or(p, Eq(r, toInt(x)))
			}
			return ex.trimRight(st, ci, args[0].(*SliceV), r, p)
		},
		"bytes.Compare": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			a, b := args[0].(*SliceV), args[1].(*SliceV)
			x, y := ex.sliceArr(st, u8, a)[0], ex.sliceArr(st, u8, b)[0]
			eq := strEq(&StrV{x, a.off, a.len}, &StrV{y, b.off, b.len})
			r := ex.fresh("cmp", Int)
			ex.fact(True, And(iff(Eq(r, N(0)), eq), Ge(r, N(-1)), Le(r, N(1))))
			return r
		},
		"iface:io.Reader.Read": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			return ex.readInto(st, ifaceRef(args[0]), args[1].(*SliceV))
		},
		"io.ReadFull": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			return ex.readInto(st, ifaceRef(args[0]), args[1].(*SliceV))
		},
		"crypto/rand.Read": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			return ex.readInto(st, App("sub:cryptorand", SubSort), args[0].(*SliceV))
		},
		"ckernels.cint": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			x := args[0].(*Term)
			ex.check(st, "overflow", "signed C int", ci.pos, And(Ge(x, Num(new(big.Int).Neg(pow2(31)))), Lt(x, Num(pow2(31)))))
			return x
		},
		"lukechampine.com/uint128.From64": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			return args[0]
		},
		"lukechampine.com/uint128.New": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			return Add(args[0].(*Term), Scale(pow2(64), args[1].(*Term)))
		},
		"lukechampine.com/uint128.FromBytes": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			return getLE(16, false)(ex, st, ci, []Val{nil, args[0]})
		},
		"lukechampine.com/uint128.Uint128.PutBytes": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			return putLE(16, false)(ex, st, ci, []Val{nil, args[1], args[0]})
		},
		"lukechampine.com/uint128.Uint128.AddWrap": u128op(func(a, b *Term) *Term { return Mod(Add(a, b), Num(pow2(128))) }),
		"lukechampine.com/uint128.Uint128.SubWrap": u128op(func(a, b *Term) *Term { return Mod(Sub(a, b), Num(pow2(128))) }),
		"lukechampine.com/uint128.Uint128.MulWrap": u128op(func(a, b *Term) *Term { return Mod(Mul(a, b), Num(pow2(128))) }),
		"lukechampine.com/uint128.Uint128.Add64": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			return ex.u128panic(st, ci, Add(args[0].(*Term), args[1].(*Term)))
		},
		"lukechampine.com/uint128.Uint128.Sub64": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			return ex.u128panic(st, ci, Sub(args[0].(*Term), args[1].(*Term)))
		},
		"lukechampine.com/uint128.Uint128.Add": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			return ex.u128panic(st, ci, Add(args[0].(*Term), args[1].(*Term)))
		},
		"lukechampine.com/uint128.Uint128.Sub": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			return ex.u128panic(st, ci, Sub(args[0].(*Term), args[1].(*Term)))
		},
		"lukechampine.com/uint128.Uint128.Mul": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			return ex.u128panic(st, ci, Mul(args[0].(*Term), args[1].(*Term)))
		},
		"lukechampine.com/uint128.Uint128.AddWrap64": u128op(func(a, b *Term) *Term { return Mod(Add(a, b), Num(pow2(128))) }),
		"lukechampine.com/uint128.Uint128.SubWrap64": u128op(func(a, b *Term) *Term { return Mod(Sub(a, b), Num(pow2(128))) }),
		"lukechampine.com/uint128.Uint128.Cmp":       func(ex *Exec, st *State, ci *callInfo, args []Val) Val { return cmp3(args[0].(*Term), args[1].(*Term)) },
		"lukechampine.com/uint128.Uint128.Cmp64":     func(ex *Exec, st *State, ci *callInfo, args []Val) Val { return cmp3(args[0].(*Term), args[1].(*Term)) },
		"lukechampine.com/uint128.Uint128.Equals": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			return Eq(args[0].(*Term), args[1].(*Term))
		},
		"lukechampine.com/uint128.Uint128.Equals64": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			return Eq(args[0].(*Term), args[1].(*Term))
		},
		"lukechampine.com/uint128.Uint128.IsZero": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			return Eq(args[0].(*Term), N(0))
		},
		"lukechampine.com/uint128.Uint128.Lsh": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			n := args[1].(*Term)
			if n.isNum() {
				return Mod(Scale(pow2(int(n.num.Int64())), args[0].(*Term)), Num(pow2(128)))
			}
			return Mod(Mul(args[0].(*Term), App("pow2", Nat, n)), Num(pow2(128)))
		},
		"lukechampine.com/uint128.Uint128.Rsh": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			n := args[1].(*Term)
			if n.isNum() {
				return Div(args[0].(*Term), Num(pow2(int(n.num.Int64()))))
			}
			return Div(args[0].(*Term), App("pow2", Nat, n))
		},
		"lukechampine.com/uint128.Uint128.And": func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
			x, y := args[0].(*Term), args[1].(*Term)
			for i := 0; i < 2; i++ {
				if _, ok := isConstPow2(AddC(y, 1)); ok {
					return Mod(x, AddC(y, 1))
				}
				x, y = y, x
			}
			return App("iand", U128, x, y)
		},
	}
}

// trimRight cuts the longest suffix of runes r with p; p must not hold for runes
// beyond ASCII, so that the suffix is one of bytes.
func (ex *Exec) trimRight(st *State, ci *callInfo, s *SliceV, r, p *Term) Val {
	ex.check(st, "ascii", "trimmed runes", ci.pos, Imp(And(Ge(r, N(128)), Le(r, N(0x10ffff))), Not(p)))
	a := ex.sliceArr(st, u8, s)[0]
	at := func(i *Term) *Term { return Subst(p, map[*Term]*Term{r: toInt(Select(a, Add(s.off, i)))}) }
	n := ex.fresh("trim", Nat)
	j := BoundVar("j", Int)
	ex.fact(True, And(Le(n, s.len), Or(Eq(n, N(0)), Not(at(AddC(n, -1)))),
		Forall([]*Term{j}, Imp(And(Le(n, j), Lt(j, s.len)), at(j)), []*Term{Select(a, Add(s.off, j))})))
	return &SliceV{s.ref, s.off, n, s.cap}
}

func cmp3(a, b *Term) *Term {
	return Ite(Lt(a, b), N(-1), Ite(Eq(a, b), N(0), N(1)))
}

func (ex *Exec) u128panic(st *State, ci *callInfo, r *Term) Val {
	in := And(Ge(r, N(0)), Lt(r, Num(pow2(128))))
	ex.check(st, "overflow", ci.name, ci.pos, in)
	return Mod(r, Num(pow2(128)))
}

func u128op(f func(a, b *Term) *Term) intrinsic {
	return func(ex *Exec, st *State, ci *callInfo, args []Val) Val {
		return f(args[0].(*Term), args[1].(*Term))
	}
}

func nop(ex *Exec, st *State, ci *callInfo, args []Val) Val {
	return ex.resultVal(zeroResults(ex, ci.sig.Results()))
}

func fatal(ex *Exec, st *State, ci *callInfo, args []Val) Val {
	ex.panics(st, ci.name, ci.pos)
	return nil
}

func freshResult(ex *Exec, st *State, ci *callInfo, args []Val) Val {
	var vs []Val
	for i := 0; i < ci.sig.Results().Len(); i++ {
		vs = append(vs, ex.symVal("ext", ci.sig.Results().At(i).Type()))
	}
	return ex.resultVal(vs)
}

var _ = fmt.Sprint
var _ = big.NewInt
var _ *ssa.Function

func randn(ex *Exec, st *State, ci *callInfo, args []Val) Val {
	return randn0(ex, st, ci, args[1:])
}

// randn0 draws a number below the bound, which must be positive.
func randn0(ex *Exec, st *State, ci *callInfo, args []Val) Val {
	n := args[0].(*Term)
	ex.check(st, "no-panic", ci.name+" of a positive bound", ci.pos, Gt(n, N(0)))
	r := ex.fresh("rand", Int)
	ex.fact(True, And(Ge(r, N(0)), Imp(Gt(n, N(0)), Lt(r, n))))
	return r
}

func randpos(ex *Exec, st *State, ci *callInfo, args []Val) Val {
	r := ex.fresh("rand", Int)
	ex.fact(True, And(Ge(r, N(0)), Lt(r, Num(pow2(63)))))
	return r
}
