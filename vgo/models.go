package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut

var vpIntrinsics map[string]modelFn
var models map[string]modelFn

func strArg(x *Exec, v Val) string {
	t, ok := v.(*Term)
	if ok {
		if s, ok := x.C.StrLit(t); ok {
			return s
		}
	}
	return "?"
}

func init() {
	noop := func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
		r := fn.Signature.Results()
		if r.Len() == 0 {
			return one(st, nil)
		}
		panic(unsupported("noop with result %s", fn))
	}
	vpIntrinsics = map[string]modelFn{
		"vpRequires": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			c := args[0].(*Term)
			if c == x.C.False {
				return nil
			}
			st.assume(c)
			if !x.feasible(st, x.C.True) {
				return nil
			}
			return one(st, nil)
		},
		"vpEnsures": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			c := args[1].(*Term)
			x.prove(st, x.hname+"/"+strArg(x, args[0]), "ensures", x.where(in), c)
			if c == x.C.False {
				return nil
			}
			st.assume(c)
			return one(st, nil)
		},
		"vpInvariant": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			i := args[0].(*IfaceV)
			st.invs = append(st.invs, i.V.(*FuncV))
			return one(st, nil)
		},
		"vpMake": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			n := args[0].(*Term)
			g := args[1].(*FuncV)
			elem := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
			if n.IsConst() && n.Val <= 64 {
				av := &ArrayV{}
				for i := uint64(0); i < n.Val; i++ {
					outs := x.callValue(st, g, []Val{x.C.Const(i, 64)}, nil, in)
					if len(outs) != 1 || outs[0].p != nil {
						panic(unsupported("vpMake generator branches"))
					}
					st = outs[0].st
					av.E = append(av.E, outs[0].ret)
				}
				id := x.newObj(st, types.NewSlice(elem), av, "vpMake")
				return one(st, &SliceV{Obj: id, Off: x.C.Const(0, 64), Len: n, Cap: n, Elem: elem})
			}
			id := x.newObj(st, types.NewSlice(elem), &LamArr{Elem: elem, Gen: g, N: n, memo: map[int]Val{}}, "vpMake")
			return one(st, &SliceV{Obj: id, Off: x.C.Const(0, 64), Len: n, Cap: n, Elem: elem})
		},
		"vpPanics": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			outs := x.callValue(st, args[0].(*FuncV), nil, nil, in)
			for i := range outs {
				if outs[i].p != nil {
					outs[i].p = nil
					outs[i].ret = x.C.True
				} else {
					outs[i].ret = x.C.False
				}
			}
			return outs
		},
		"vpForall": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			lo, hi := args[0].(*Term), args[1].(*Term)
			q := x.C.BoundVar(x.C.BV(64))
			s := st.clone()
			s.assume(x.C.And(x.C.Sle(lo, q), x.C.Slt(q, hi)))
			body := x.evalPure(s, args[2].(*FuncV), []Val{q})
			if body == nil {
				panic(unsupported("quantified body not evaluable"))
			}
			return one(st, x.C.Forall(q, x.C.Or(x.C.Not(x.C.And(x.C.Sle(lo, q), x.C.Slt(q, hi))), body)))
		},
		"vpPure": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			n := "pure." + strArg(x, args[0])
			var ts []*Term
			if sl := args[1].(*SliceV); sl.Obj != 0 {
				es, ok := x.elems(st, sl)
				if !ok {
					panic(unsupported("vpPure arguments"))
				}
				for _, e := range es {
					i := e.(*IfaceV)
					a, b := x.encode(st, i.V, i.T)
					n += a
					ts = append(ts, b...)
				}
			}
			return one(st, x.ufResult(st, n, fn.Signature.Results(), ts))
		},
		"vpUnroll": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			x.unrollAll = int(args[0].(*Term).Val)
			return one(st, nil)
		},
		"vpSettle": noop,
		"vpSched": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			if x.pending == 0 {
				panic(unsupported("vpSched without lazygo"))
			}
			co := *(st.get(x.pending).V.(*ChanObj))
			if co.Lost {
				panic(unsupported("goroutines started in a loop"))
			}
			if len(co.Sent) == 0 {
				return one(st, x.C.False)
			}
			f := co.Sent[0].(*FuncV)
			co.Sent = co.Sent[1:]
			st.set(x.pending, &co)
			outs := f.Ext(x, st, nil)
			for i := range outs {
				if outs[i].p == nil {
					outs[i].ret = x.C.True
				}
			}
			return outs
		},
		"vpVisited": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			it, k := x.iterOver(st, fn, args)
			if it == nil {
				panic(unsupported("no loop over the map"))
			}
			return one(st, x.C.Select(it.Visited, k))
		},
		"vpVisitOf": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			it, k := x.iterOver(st, fn, args)
			if it == nil {
				panic(unsupported("no loop over the map"))
			}
			return one(st, x.C.Select(it.Order, k))
		},
		"vpAt": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			sl := x.asSlice(st, args[0])
			if sl.Obj == 0 {
				return one(st, x.zero(fn.Signature.Results().At(0).Type()))
			}
			if sl.Len.IsConst() {
				if i := args[1].(*Term); i.IsConst() && i.Val >= sl.Len.Val {
					return one(st, x.zero(fn.Signature.Results().At(0).Type()))
				}
			}
			return x.load(st, &PtrV{Obj: sl.Obj, Path: []PathEl{{Fld: -1, Idx: x.C.Add(sl.Off, args[1].(*Term))}}}, in)
		},
		"vpConcrete": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			return one(st, x.C.False)
		},
		"vpAny": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			return one(st, x.freshVal(st, "any", fn.Signature.Results().At(0).Type(), 0))
		},
	}
	ident := func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
		return one(st, args[0])
	}
	models = map[string]modelFn{
		"math.Float32bits":     ident,
		"math.Float64bits":     ident,
		"math.Float32frombits": ident,
		"math.Float64frombits": ident,
		"math.IsNaN": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			return one(st, x.fIsNaN(args[0].(*Term)))
		},
		"math.NaN": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			return one(st, x.C.Const(0x7FF8000000000001, 64))
		},
		"math.Inf": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			C := x.C
			return one(st, C.Ite(C.Sle(C.Const(0, 64), args[0].(*Term)), C.Const(0x7FF0000000000000, 64), C.Const(0xFFF0000000000000, 64)))
		},
		"math.IsInf": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			C := x.C
			f, s := args[0].(*Term), args[1].(*Term)
			z := C.Const(0, 64)
			pos := C.And(C.Sle(z, s), C.Eq(f, C.Const(0x7FF0000000000000, 64)))
			neg := C.And(C.Sle(s, z), C.Eq(f, C.Const(0xFFF0000000000000, 64)))
			return one(st, C.Or(pos, neg))
		},
		"math.Abs": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			return one(st, x.C.BAnd(args[0].(*Term), x.C.Const(mask(63), 64)))
		},
		"errors.New": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			return one(st, x.newError(st, "new", []*Term{args[0].(*Term)}))
		},
		"fmt.Errorf": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			n, ts := "errorf", []*Term{args[0].(*Term)}
			func() {
				defer func() {
					if e := recover(); e != nil {
						if _, ok := e.(unsup); !ok {
							panic(e)
						}
						n, ts = "errorf", []*Term{args[0].(*Term)}
						x.ghostN++
						n += fmt.Sprintf("#%d", x.ghostN)
					}
				}()
				s, t := x.encode(st, args[1], paramType(fn, 1))
				n += s
				ts = append(ts, t...)
			}()
			for _, t := range ts {
				n += "'" + t.Sort.String()
			}
			return one(st, x.newError(st, n, ts))
		},
		"errors.Is": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			return one(st, x.ifaceEq(st, args[0], args[1]))
		},
		"(*sync.Mutex).Lock":               noop,
		"(*sync.Mutex).Unlock":             noop,
		"(*sync.RWMutex).Lock":             noop,
		"(*sync.RWMutex).Unlock":           noop,
		"(*sync.RWMutex).RLock":            noop,
		"(*sync.RWMutex).RUnlock":          noop,
		"(*sync.WaitGroup).Add":            noop,
		"(*sync.WaitGroup).Done":           noop,
		"(*sync.WaitGroup).Wait":           noop,
		"(*sync.Cond).Broadcast":           noop,
		"(*sync.Cond).Signal":              noop,
		"time.Sleep":                       noop,
		"sync/atomic.LoadInt32":            atomicLoad,
		"sync/atomic.LoadInt64":            atomicLoad,
		"sync/atomic.LoadUint32":           atomicLoad,
		"sync/atomic.LoadUint64":           atomicLoad,
		"sync/atomic.StoreInt32":           atomicStore,
		"sync/atomic.StoreInt64":           atomicStore,
		"sync/atomic.StoreUint32":          atomicStore,
		"sync/atomic.StoreUint64":          atomicStore,
		"sync/atomic.AddInt32":             atomicAdd,
		"sync/atomic.AddInt64":             atomicAdd,
		"sync/atomic.AddUint32":            atomicAdd,
		"sync/atomic.AddUint64":            atomicAdd,
		"sync/atomic.SwapInt32":            atomicSwap,
		"sync/atomic.SwapUint32":           atomicSwap,
		"sync/atomic.CompareAndSwapInt32":  atomicCAS,
		"sync/atomic.CompareAndSwapUint32": atomicCAS,
		"time.Now": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			return one(st, x.C.Fresh("now", x.C.Opaque("time_Time")))
		},
		"strings.EqualFold": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			// equivalence relation induced by a folding function
			x.Trusted["strings.EqualFold compares a folded form"] = true
			return one(st, x.C.Eq(x.C.App("fold", x.C.StrS, args[0].(*Term)), x.C.App("fold", x.C.StrS, args[1].(*Term))))
		},
	}
	for n, m := range stringModels() {
		models[n] = m
	}
	for n, m := range timeModels() {
		models[n] = m
	}
	for n, m := range builderModels() {
		models[n] = m
	}
}

func atomicLoad(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
	return x.withPtr(st, args[0], in, func(st *State, p *PtrV) []CallOut { return x.load(st, p, in) })
}
func atomicStore(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
	return x.withPtr(st, args[0], in, func(st *State, p *PtrV) []CallOut { return x.store(st, p, args[1], in) })
}
func atomicAdd(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
	return x.withPtr(st, args[0], in, func(st *State, p *PtrV) []CallOut {
		var res []CallOut
		for _, o := range x.load(st, p, in) {
			n := x.C.Add(o.ret.(*Term), args[1].(*Term))
			for _, q := range x.store(o.st, p, n, in) {
				res = append(res, CallOut{st: q.st, ret: n})
			}
		}
		return res
	})
}
func atomicSwap(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
	return x.withPtr(st, args[0], in, func(st *State, p *PtrV) []CallOut {
		var res []CallOut
		for _, o := range x.load(st, p, in) {
			for _, q := range x.store(o.st, p, args[1], in) {
				res = append(res, CallOut{st: q.st, ret: o.ret})
			}
		}
		return res
	})
}
func atomicCAS(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
	return x.withPtr(st, args[0], in, func(st *State, p *PtrV) []CallOut {
		var res []CallOut
		for _, o := range x.load(st, p, in) {
			eq := x.C.Eq(o.ret.(*Term), args[1].(*Term))
			n := x.C.Ite(eq, args[2].(*Term), o.ret.(*Term))
			for _, q := range x.store(o.st, p, n, in) {
				res = append(res, CallOut{st: q.st, ret: eq})
			}
		}
		return res
	})
}

// litFold evaluates a string function on literal arguments.
func stringModels() map[string]modelFn {
	mk1 := func(name string, f func(string) string) modelFn {
		return func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			if s, ok := x.C.StrLit(args[0].(*Term)); ok {
				return one(st, x.C.Str(f(s)))
			}
			return x.ufCall(st, fn, args)
		}
	}
	mk2b := func(f func(a, b string) bool) modelFn {
		return func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			a, ok1 := x.C.StrLit(args[0].(*Term))
			b, ok2 := x.C.StrLit(args[1].(*Term))
			if ok1 && ok2 {
				return one(st, x.C.BoolC(f(a, b)))
			}
			outs := x.ufCall(st, fn, args)
			for _, o := range outs {
				// what is found in a text is not longer than the text
				o.st.assume(x.C.Or(x.C.Not(o.ret.(*Term)), x.C.Ule(x.C.StrLen(args[1].(*Term)), x.C.StrLen(args[0].(*Term)))))
			}
			return outs
		}
	}
	mk2i := func(f func(a, b string) int) modelFn {
		return func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			a, ok1 := x.C.StrLit(args[0].(*Term))
			b, ok2 := x.C.StrLit(args[1].(*Term))
			if ok1 && ok2 {
				return one(st, x.C.Const(uint64(f(a, b)), 64))
			}
			return x.ufCall(st, fn, args)
		}
	}
	return map[string]modelFn{
		"strings.Index":     mk2i(strings.Index),
		"strings.LastIndex": mk2i(strings.LastIndex),
		"strings.IndexByte": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			a, ok := x.C.StrLit(args[0].(*Term))
			if !ok || !args[1].(*Term).IsConst() {
				return x.ufCall(st, fn, args)
			}
			return one(st, x.C.Const(uint64(strings.IndexByte(a, byte(args[1].(*Term).Val))), 64))
		},
		"strings.ReplaceAll": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			a, ok1 := x.C.StrLit(args[0].(*Term))
			b, ok2 := x.C.StrLit(args[1].(*Term))
			c, ok3 := x.C.StrLit(args[2].(*Term))
			if !ok1 || !ok2 || !ok3 {
				return x.ufCall(st, fn, args)
			}
			return one(st, x.C.Str(strings.ReplaceAll(a, b, c)))
		},
		"strings.IndexRune": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			if s, ok := x.C.StrLit(args[0].(*Term)); ok && args[1].(*Term).IsConst() {
				return one(st, x.C.Const(uint64(strings.IndexRune(s, rune(args[1].(*Term).Val))), 64))
			}
			return x.ufCall(st, fn, args)
		},
		"strings.TrimPrefix": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			a, ok1 := x.C.StrLit(args[0].(*Term))
			b, ok2 := x.C.StrLit(args[1].(*Term))
			if ok1 && ok2 {
				return one(st, x.C.Str(strings.TrimPrefix(a, b)))
			}
			if ok2 && b == "" {
				return one(st, args[0])
			}
			return x.ufCall(st, fn, args)
		},
		"strings.Split": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			return x.splitText(st, fn, args, -1, in)
		},
		"strings.SplitN": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			if !args[2].(*Term).IsConst() {
				return x.ufCall(st, fn, args)
			}
			return x.splitText(st, fn, args, int(int64(args[2].(*Term).Val)), in)
		},
		"strings.Cut": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			a, ok1 := x.C.StrLit(args[0].(*Term))
			b, ok2 := x.C.StrLit(args[1].(*Term))
			if !ok1 || !ok2 {
				return x.ufCall(st, fn, args)
			}
			before, after, found := strings.Cut(a, b)
			return one(st, &TupleV{E: []Val{x.C.Str(before), x.C.Str(after), x.C.BoolC(found)}})
		},
		"strings.Replace": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			a, ok1 := x.C.StrLit(args[0].(*Term))
			b, ok2 := x.C.StrLit(args[1].(*Term))
			c, ok3 := x.C.StrLit(args[2].(*Term))
			if !ok1 || !ok2 || !ok3 || !args[3].(*Term).IsConst() {
				return x.ufCall(st, fn, args)
			}
			return one(st, x.C.Str(strings.Replace(a, b, c, int(int64(args[3].(*Term).Val)))))
		},
		"unicode.ToUpper":   asciiCase('a', 'z', -32),
		"unicode.ToLower":   asciiCase('A', 'Z', 32),
		"strings.ToUpper":   mk1("upper", strings.ToUpper),
		"strings.ToLower":   mk1("lower", strings.ToLower),
		"strings.TrimSpace": mk1("trim", strings.TrimSpace),
		"strings.Contains":  mk2b(strings.Contains),
		"strings.HasPrefix": mk2b(strings.HasPrefix),
		"strings.HasSuffix": mk2b(strings.HasSuffix),
	}
}

// splitText splits a constant text.
func (x *Exec) splitText(st *State, fn *ssa.Function, args []Val, limit int, in ssa.Instruction) []CallOut {
	a, ok1 := x.C.StrLit(args[0].(*Term))
	b, ok2 := x.C.StrLit(args[1].(*Term))
	if !ok1 || !ok2 {
		return x.ufCall(st, fn, args)
	}
	parts := strings.SplitN(a, b, limit)
	n := x.C.Const(uint64(len(parts)), 64)
	sl := x.makeSlice(st, types.Typ[types.String], n, n)
	for i, p := range parts {
		x.store(st, &PtrV{Obj: sl.Obj, Path: []PathEl{{Fld: -1, Idx: x.C.Const(uint64(i), 64)}}}, x.C.Str(p), in)
	}
	return []CallOut{{st: st, ret: sl}}
}

// asciiCase is the case of a rune, known for ASCII.
func asciiCase(lo, hi, shift rune) modelFn {
	return func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
		C := x.C
		r := args[0].(*Term)
		k := func(c rune) *Term { return C.Const(uint64(uint32(c)), 32) }
		ascii := C.Ite(C.And(C.Ule(k(lo), r), C.Ule(r, k(hi))), C.Add(r, k(shift)), r)
		isASCII := C.Ult(r, k(128))
		if isASCII == C.True {
			return one(st, ascii)
		}
		outs := x.ufCall(st, fn, args)
		for i := range outs {
			outs[i].ret = C.Ite(isASCII, ascii, outs[i].ret.(*Term))
		}
		return outs
	}
}

// Times are instants, whole seconds since the Unix epoch and nanoseconds
// within the second, together with a location: 0 is UTC and 1 is local time.
func (x *Exec) timeMk(sec, ns, loc *Term) *Term {
	C := x.C
	t := C.App("time.mk", C.Opaque("time_Time"), sec, ns, loc)
	if !t.bound {
		C.AddAxiom(C.Eq(C.App("time.loc", C.BV(64), t), loc))
		C.AddAxiom(C.Eq(C.App("time.sec", C.BV(64), t), sec))
		C.AddAxiom(C.Eq(C.App("time.ns", C.BV(64), t), ns))
	}
	return t
}

func (x *Exec) timeLoc(t *Term) *Term {
	C := x.C
	switch {
	case t.Op == OApp && t.Name == "time.mk":
		return t.Args[2]
	case t.Op == OIte:
		return C.Ite(t.Args[0], x.timeLoc(t.Args[1]), x.timeLoc(t.Args[2]))
	case t.Name == "zero!time_Time":
		return C.Const(0, 64)
	}
	return C.App("time.loc", C.BV(64), t)
}

// The zero time is January 1 of the year 1.
const zeroTime = int64(-62135596800)

func (x *Exec) timeParts(t *Term) (sec, ns *Term) {
	C := x.C
	if t.Name == "zero!time_Time" {
		z := zeroTime
		return C.Const(uint64(z), 64), C.Const(0, 64)
	}
	if t.Op == OApp && t.Name == "time.mk" {
		return t.Args[0], t.Args[1]
	}
	if t.Op == OIte {
		a, b := x.timeParts(t.Args[1])
		c, d := x.timeParts(t.Args[2])
		return C.Ite(t.Args[0], a, c), C.Ite(t.Args[0], b, d)
	}
	sec, ns = C.App("time.sec", C.BV(64), t), C.App("time.ns", C.BV(64), t)
	if !t.bound {
		C.AddAxiom(C.Ult(ns, C.Const(1000000000, 64)))
	}
	return sec, ns
}

func timeModels() map[string]modelFn {
	const e9 = 1000000000
	// norm brings nanoseconds into range
	norm := func(x *Exec, sec, ns, loc *Term) *Term {
		C := x.C
		k := C.Const(e9, 64)
		q, r := C.SDiv(ns, k), C.SRem(ns, k)
		neg := C.Slt(r, C.Const(0, 64))
		return x.timeMk(C.Add(sec, C.Ite(neg, C.Sub(q, C.Const(1, 64)), q)), C.Ite(neg, C.Add(r, k), r), loc)
	}
	in := func(loc uint64) modelFn {
		return func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			s, n := x.timeParts(args[0].(*Term))
			return one(st, x.timeMk(s, n, x.C.Const(loc, 64)))
		}
	}
	cmp := func(f func(x *Exec, as, an, bs, bn *Term) *Term) modelFn {
		return func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			as, an := x.timeParts(args[0].(*Term))
			bs, bn := x.timeParts(args[1].(*Term))
			return one(st, f(x, as, an, bs, bn))
		}
	}
	lt := func(x *Exec, as, an, bs, bn *Term) *Term {
		return x.C.Or(x.C.Slt(as, bs), x.C.And(x.C.Eq(as, bs), x.C.Ult(an, bn)))
	}
	part := func(f func(x *Exec, s, n *Term) *Term) modelFn {
		return func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			s, n := x.timeParts(args[0].(*Term))
			return one(st, f(x, s, n))
		}
	}
	return map[string]modelFn{
		"time.Unix": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			return one(st, norm(x, args[0].(*Term), args[1].(*Term), x.C.Const(1, 64)))
		},
		"time.UnixMilli": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			C := x.C
			ms, k := args[0].(*Term), C.Const(1000, 64)
			q, r := C.SDiv(ms, k), C.SRem(ms, k)
			return one(st, norm(x, q, C.Mul(r, C.Const(1000000, 64)), C.Const(1, 64)))
		},
		"time.Since": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			return one(st, x.C.Fresh("since", x.C.BV(64)))
		},
		"(time.Time).UTC":   in(0),
		"(time.Time).Local": in(1),
		"(time.Time).Location": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			return x.ufCall(st, fn, []Val{x.timeMk(x.C.Const(0, 64), x.C.Const(0, 64), x.timeLoc(args[0].(*Term)))})
		},
		"(time.Time).Unix":       part(func(x *Exec, s, n *Term) *Term { return s }),
		"(time.Time).Nanosecond": part(func(x *Exec, s, n *Term) *Term { return n }),
		"(time.Time).UnixNano": part(func(x *Exec, s, n *Term) *Term {
			return x.C.Add(x.C.Mul(s, x.C.Const(e9, 64)), n)
		}),
		"(time.Time).UnixMilli": part(func(x *Exec, s, n *Term) *Term {
			return x.C.Add(x.C.Mul(s, x.C.Const(1000, 64)), x.C.SDiv(n, x.C.Const(1000000, 64)))
		}),
		"(time.Time).IsZero": part(func(x *Exec, s, n *Term) *Term {
			zero := zeroTime
			return x.C.And(x.C.Eq(s, x.C.Const(uint64(zero), 64)), x.C.Eq(n, x.C.Const(0, 64)))
		}),
		"(time.Time).Equal":  cmp(func(x *Exec, as, an, bs, bn *Term) *Term { return x.C.And(x.C.Eq(as, bs), x.C.Eq(an, bn)) }),
		"(time.Time).Before": cmp(lt),
		"(time.Time).After":  cmp(func(x *Exec, as, an, bs, bn *Term) *Term { return lt(x, bs, bn, as, an) }),
		"(time.Time).Compare": cmp(func(x *Exec, as, an, bs, bn *Term) *Term {
			C := x.C
			return C.Ite(lt(x, as, an, bs, bn), C.Const(^uint64(0), 64), C.Ite(lt(x, bs, bn, as, an), C.Const(1, 64), C.Const(0, 64)))
		}),
		"(time.Time).Add": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			C := x.C
			s, n := x.timeParts(args[0].(*Term))
			d, k := args[1].(*Term), C.Const(e9, 64)
			return one(st, norm(x, C.Add(s, C.SDiv(d, k)), C.Add(n, C.SRem(d, k)), x.timeLoc(args[0].(*Term))))
		},
	}
}

// builderModels gives strings.Builder its meaning: its value is the text written so far.
func builderModels() map[string]modelFn {
	app := func(piece func(x *Exec, st *State, v Val) (*Term, *Term), tuple bool) modelFn {
		return func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			return x.withPtr(st, args[0], in, func(st *State, p *PtrV) []CallOut {
				var res []CallOut
				for _, o := range x.load(st, p, in) {
					s, n := piece(x, o.st, args[1])
					for _, q := range x.store(o.st, p, x.C.StrCat(o.ret.(*Term), s), in) {
						var ret Val = &IfaceV{}
						if tuple {
							ret = &TupleV{E: []Val{n, &IfaceV{}}}
						}
						res = append(res, CallOut{st: q.st, ret: ret})
					}
				}
				return res
			})
		}
	}
	get := func(f func(x *Exec, s *Term) Val) modelFn {
		return func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			return x.withPtr(st, args[0], in, func(st *State, p *PtrV) []CallOut {
				outs := x.load(st, p, in)
				for i := range outs {
					outs[i].ret = f(x, outs[i].ret.(*Term))
				}
				return outs
			})
		}
	}
	r2s := func(x *Exec, t *Term) *Term {
		if t.IsConst() {
			return x.C.Str(string(rune(int32(t.Val))))
		}
		return x.C.App("rune2str", x.C.StrS, x.C.Sext(t, 64))
	}
	return map[string]modelFn{
		"(*strings.Builder).WriteString": app(func(x *Exec, st *State, v Val) (*Term, *Term) {
			return v.(*Term), x.C.StrLen(v.(*Term))
		}, true),
		"(*strings.Builder).WriteRune": app(func(x *Exec, st *State, v Val) (*Term, *Term) {
			s := r2s(x, v.(*Term))
			return s, x.C.StrLen(s)
		}, true),
		"(*strings.Builder).WriteByte": app(func(x *Exec, st *State, v Val) (*Term, *Term) {
			b := v.(*Term)
			if b.IsConst() {
				return x.C.Str(string([]byte{byte(b.Val)})), nil
			}
			return x.C.App("byte2str", x.C.StrS, b), nil
		}, false),
		"(*strings.Builder).Write": app(func(x *Exec, st *State, v Val) (*Term, *Term) {
			sl := x.asSlice(st, v)
			return x.bytesToStr(st, sl), sl.Len
		}, true),
		"(*strings.Builder).String": get(func(x *Exec, s *Term) Val { return s }),
		"(*strings.Builder).Len":    get(func(x *Exec, s *Term) Val { return x.C.StrLen(s) }),
		"(*strings.Builder).Grow": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			return one(st, nil)
		},
		"(*strings.Builder).Reset": func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			return x.withPtr(st, args[0], in, func(st *State, p *PtrV) []CallOut { return x.store(st, p, x.C.Str(""), in) })
		},
	}
}

// rtype is the value reflect gives for a type.
func (x *Exec) rtype(t types.Type, pkg *types.Package) Val {
	key := types.TypeString(t, nil)
	id, ok := x.rtypes[key]
	rt := pkg.Scope().Lookup("rtype").Type()
	if !ok {
		x.objN++
		id = x.objN
		x.rtypes[key] = id
		x.rtypeOf[id] = t
		x.global.heap[id] = &Obj{T: rt, V: &StructV{}, Name: "type " + key}
	}
	return &IfaceV{T: types.NewPointer(rt), V: &PtrV{Obj: id}}
}

// typeArg is the type a value of reflect stands for.
func (x *Exec) typeArg(v Val) types.Type {
	if i, ok := v.(*IfaceV); ok {
		v = i.V
	}
	if p, ok := v.(*PtrV); ok && len(p.Path) == 0 {
		if t := x.rtypeOf[p.Obj]; t != nil {
			return t
		}
	}
	panic(unsupported("type of reflect not known"))
}

func init() {
	models["reflect.TypeOf"] = func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
		i, ok := args[0].(*IfaceV)
		if !ok {
			panic(unsupported("reflect.TypeOf of %T", args[0]))
		}
		if i.T == nil {
			return one(st, &IfaceV{})
		}
		return one(st, x.rtype(i.T, fn.Pkg.Pkg))
	}
	models["(*reflect.rtype).Elem"] = func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
		t, ok := x.typeArg(args[0]).Underlying().(interface{ Elem() types.Type })
		if !ok {
			panic(unsupported("reflect Elem"))
		}
		return one(st, x.rtype(t.Elem(), fn.Pkg.Pkg))
	}
	implements := func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
		t, ok := x.typeArg(args[1]).Underlying().(*types.Interface)
		if !ok {
			panic(unsupported("reflect conversion to other than an interface"))
		}
		return one(st, x.C.BoolC(types.Implements(x.typeArg(args[0]), t)))
	}
	models["(*reflect.rtype).Implements"] = implements
	models["(*reflect.rtype).ConvertibleTo"] = implements
}

// folded numbers of literal texts
func init() {
	number := func(name string, f func(s string, args []Val) (uint64, error)) {
		models[name] = func(x *Exec, st *State, fn *ssa.Function, args []Val, in ssa.Instruction) []CallOut {
			s, ok := x.C.StrLit(args[0].(*Term))
			for _, a := range args[1:] {
				ok = ok && a.(*Term).IsConst()
			}
			if !ok {
				return x.ufCall(st, fn, args)
			}
			v, err := f(s, args)
			var e Val = &IfaceV{}
			if err != nil {
				e = x.newError(st, "strconv", []*Term{x.C.Str(err.Error())})
			}
			return one(st, &TupleV{E: []Val{x.C.Const(v, 64), e}})
		}
	}
	at := func(args []Val, i int) int { return int(args[i].(*Term).Val) }
	number("strconv.Atoi", func(s string, args []Val) (uint64, error) {
		v, err := strconv.Atoi(s)
		return uint64(v), err
	})
	number("strconv.ParseInt", func(s string, args []Val) (uint64, error) {
		v, err := strconv.ParseInt(s, at(args, 1), at(args, 2))
		return uint64(v), err
	})
	number("strconv.ParseUint", func(s string, args []Val) (uint64, error) {
		return strconv.ParseUint(s, at(args, 1), at(args, 2))
	})
}

// iterOver is the latest loop over a map.
func (x *Exec) iterOver(st *State, fn *ssa.Function, args []Val) (*IterObj, *Term) {
	m, ok := args[0].(*MapV)
	if !ok || m.Obj == 0 {
		return nil, nil
	}
	best := 0
	var it *IterObj
	for id, o := range st.heap {
		if i, ok := o.V.(*IterObj); ok && i.MapID == m.Obj && id > best {
			best, it = id, i
		}
	}
	mo := st.get(m.Obj).V.(*MapObj)
	return it, x.keyTerm(st, mo.KT, args[1])
}
