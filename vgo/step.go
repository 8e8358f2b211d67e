package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"time"

	"golang.org/x/tools/go/ssa"
)

func one(st *State, v Val) []CallOut { return []CallOut{{st: st, ret: v}} }

// step executes one non-terminator instruction.
func (x *Exec) step(st *State, fr *Frame, in ssa.Instruction) []CallOut {
	switch t := in.(type) {
	case *ssa.DebugRef:
		return one(st, nil)
	case *ssa.Alloc:
		et := t.Type().Underlying().(*types.Pointer).Elem()
		if at, ok := et.Underlying().(*types.Array); ok && at.Len() > 64 && t.Comment == "makeslice" {
			n := x.C.Const(uint64(at.Len()), 64)
			return one(st, &PtrV{Obj: x.makeSlice(st, at.Elem(), n, n).Obj})
		}
		id := x.newObj(st, et, x.zero(et), t.Comment)
		return one(st, &PtrV{Obj: id})
	case *ssa.BinOp:
		return x.binop(st, fr, t)
	case *ssa.UnOp:
		return x.unop(st, fr, t)
	case *ssa.Call:
		return x.execCall(st, fr, &t.Call, in)
	case *ssa.ChangeType:
		return one(st, x.val(st, fr, t.X))
	case *ssa.ChangeInterface:
		return one(st, x.val(st, fr, t.X))
	case *ssa.Convert:
		return x.convert(st, fr, t)
	case *ssa.MultiConvert:
		panic(unsupported("multiconvert"))
	case *ssa.MakeInterface:
		v := x.val(st, fr, t.X)
		return one(st, &IfaceV{T: t.X.Type(), V: v})
	case *ssa.Extract:
		tv, ok := x.val(st, fr, t.Tuple).(*TupleV)
		if !ok {
			panic(unsupported("extract from %T", x.val(st, fr, t.Tuple)))
		}
		return one(st, tv.E[t.Index])
	case *ssa.Field:
		sv, ok := x.val(st, fr, t.X).(*StructV)
		if !ok {
			panic(unsupported("field of opaque value"))
		}
		return one(st, sv.F[t.Field])
	case *ssa.FieldAddr:
		p := x.val(st, fr, t.X)
		return x.withPtr(st, p, in, func(st *State, p *PtrV) []CallOut {
			return one(st, &PtrV{Obj: p.Obj, Path: appendPath(p.Path, PathEl{Fld: t.Field})})
		})
	case *ssa.IndexAddr:
		return x.indexAddr(st, fr, t)
	case *ssa.Index:
		a := x.val(st, fr, t.X)
		i := x.idx64(st, x.val(st, fr, t.Index).(*Term), t.Index.Type())
		if s, ok := a.(*Term); ok && s.Sort == x.C.StrS {
			cont, outs := x.check(st, x.C.Ult(i, x.C.StrLen(s)), "index", "index out of range", in)
			if cont {
				outs = append(outs, CallOut{st: st, ret: x.C.StrAt(s, i)})
			}
			return outs
		}
		av := a.(*ArrayV)
		cont, outs := x.check(st, x.C.Ult(i, x.C.Const(uint64(len(av.E)), 64)), "index", "index out of range", in)
		if cont {
			for _, o := range x.arrayIndex(st, av, i) {
				outs = append(outs, o)
			}
		}
		return outs
	case *ssa.Lookup:
		return x.lookup(st, fr, t)
	case *ssa.MakeClosure:
		f := &FuncV{Fn: t.Fn.(*ssa.Function)}
		for _, b := range t.Bindings {
			f.Bind = append(f.Bind, x.val(st, fr, b))
		}
		return one(st, f)
	case *ssa.MakeMap:
		mt := t.Type().Underlying().(*types.Map)
		id := x.newObj(st, t.Type(), x.emptyMap(mt), "map")
		return one(st, &MapV{Obj: id})
	case *ssa.MakeChan:
		id := x.newObj(st, t.Type(), &ChanObj{}, "chan")
		return one(st, &ChanV{Obj: id})
	case *ssa.MakeSlice:
		n := x.idx64(st, x.val(st, fr, t.Len).(*Term), t.Len.Type())
		c := x.idx64(st, x.val(st, fr, t.Cap).(*Term), t.Cap.Type())
		ok := x.C.And(x.C.Sle(x.C.Const(0, 64), n), x.C.Sle(n, c), x.C.Slt(c, x.C.Const(1<<40, 64)))
		cont, outs := x.check(st, ok, "makeslice", "makeslice: len or cap out of range", in)
		if !cont {
			return outs
		}
		return append(outs, CallOut{st: st, ret: x.makeSlice(st, t.Type().Underlying().(*types.Slice).Elem(), n, c)})
	case *ssa.MapUpdate:
		m := x.val(st, fr, t.Map).(*MapV)
		cont, outs := x.check(st, x.C.BoolC(m.Obj != 0), "nilmap", "assignment to entry in nil map", in)
		if !cont {
			return outs
		}
		mt := t.Map.Type().Underlying().(*types.Map)
		x.mapStore(st, m, x.keyTerm(st, mt.Key(), x.val(st, fr, t.Key)), x.val(st, fr, t.Value), in)
		return append(outs, CallOut{st: st})
	case *ssa.Range:
		v := x.val(st, fr, t.X)
		it := &IterObj{}
		switch p := v.(type) {
		case *MapV:
			it.MapID = p.Obj
			if p.Obj != 0 {
				mo := st.get(p.Obj).V.(*MapObj)
				it.Visited = x.C.AConst(mo.Dom.Sort, x.C.False)
				it.Order = x.C.AConst(x.C.Arr(mo.Dom.Sort.Key, x.C.BV(64)), x.C.Const(0, 64))
				it.Pos = x.C.Const(0, 64)
				it.Dom = mo.Dom
				it.Map = p
			}
		case *Term:
			it.Str = p
			it.Pos = x.C.Const(0, 64)
		default:
			panic(unsupported("range over %T", v))
		}
		return one(st, &PtrV{Obj: x.newObj(st, types.Typ[types.Int], it, "iter")})
	case *ssa.Next:
		return x.next(st, fr, t)
	case *ssa.Slice:
		return x.sliceOp(st, fr, t)
	case *ssa.Store:
		p := x.val(st, fr, t.Addr)
		v := x.val(st, fr, t.Val)
		return x.withPtr(st, p, in, func(st *State, p *PtrV) []CallOut {
			return x.store(st, p, v, in)
		})
	case *ssa.TypeAssert:
		return x.typeAssert(st, fr, t)
	case *ssa.Defer:
		fn, args := x.prepCall(st, fr, &t.Call)
		fr.defers = append(fr.defers, deferred{call: &t.Call, fn: fn, args: args, instr: in})
		return one(st, nil)
	case *ssa.Go:
		x.goCalls[x.where(in)] = true
		fn, args := x.prepCall(st, fr, &t.Call)
		if x.syncGo {
			x.Assume["a goroutine runs to completion where it is started: "+x.where(in)] = true
			return x.callValue(st, fn, args, &t.Call, in)
		}
		if x.pending != 0 {
			x.Assume["a goroutine runs to completion at a point the contract chooses: "+x.where(in)] = true
			co := *(st.get(x.pending).V.(*ChanObj))
			call := &t.Call
			co.Sent = append(co.Sent[:len(co.Sent):len(co.Sent)], &FuncV{Ext: func(x *Exec, st *State, _ []Val) []CallOut {
				return x.callValue(st, fn, args, call, in)
			}})
			st.set(x.pending, &co)
			return one(st, nil)
		}
		x.Assume["goroutines started by the code under contract are not interleaved with it: "+x.where(in)] = true
		return one(st, nil)
	case *ssa.Send:
		return x.send(st, x.val(st, fr, t.Chan).(*ChanV), x.val(st, fr, t.X), in)
	case *ssa.SliceToArrayPointer:
		for _, r := range *t.Referrers() {
			if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
				panic(unsupported("slice to array pointer"))
			}
		}
		// only dereferenced: a snapshot of the elements stands for the array
		sv := x.asSlice(st, x.val(st, fr, t.X))
		at := t.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := x.C.Const(uint64(at.Len()), 64)
		cont, outs := x.check(st, x.C.Sle(n, sv.Len), "slice-to-array", "slice too short for array conversion", in)
		if !cont {
			return outs
		}
		cp := *sv
		cp.Len = n
		es, ok := x.elems(st, &cp)
		if !ok {
			panic(unsupported("slice to array pointer"))
		}
		id := x.newObj(st, t.Type().Underlying().(*types.Pointer).Elem(), &ArrayV{E: es}, "array conversion")
		return append(outs, CallOut{st: st, ret: &PtrV{Obj: id}})
	case *ssa.Select:
		return x.selectOp(st, fr, t)
	}
	panic(unsupported("instruction %T", in))
}

func appendPath(p []PathEl, e PathEl) []PathEl {
	r := make([]PathEl, len(p)+1)
	copy(r, p)
	r[len(p)] = e
	return r
}

// idx64 widens an index or length to 64 bits.
func (x *Exec) idx64(st *State, t *Term, ty types.Type) *Term {
	_, signed, _ := intInfo(ty)
	if t.Sort.Width == 64 {
		return t
	}
	return x.widen(st, t, 64, signed)
}

// widen extends t; a sum that does not overflow becomes the sum of its
// extended terms, so that it meets the same arithmetic done in 64 bits.
func (x *Exec) widen(st *State, t *Term, w int, signed bool) *Term {
	C := x.C
	ext := C.Zext
	if signed {
		ext = C.Sext
	}
	r := ext(t, w)
	if t.Op != OAdd || w != 64 || t.bound {
		return r
	}
	var sum *Term
	n := 0
	var flat func(t *Term)
	flat = func(t *Term) {
		if t.Op == OAdd {
			flat(t.Args[0])
			flat(t.Args[1])
			return
		}
		n++
		e := ext(t, w)
		if t.IsConst() {
			// a large constant is a subtraction
			e = C.Sext(t, w)
		}
		if sum == nil {
			sum = e
		} else {
			sum = C.Add(sum, e)
		}
	}
	flat(t)
	if n <= 8 && x.S.Check(x.S.relevant(st.pcTerms(), C.Not(C.Eq(r, sum))), 200*time.Millisecond, false, nil) == Unsat {
		return sum
	}
	return r
}

func (x *Exec) makeSlice(st *State, elem types.Type, n, c *Term) *SliceV {
	z := x.C.Const(0, 64)
	if c.IsConst() && c.Val <= 64 && n.IsConst() {
		av := &ArrayV{E: make([]Val, c.Val)}
		for i := range av.E {
			av.E[i] = x.zero(elem)
		}
		id := x.newObj(st, types.NewSlice(elem), av, "make")
		return &SliceV{Obj: id, Off: z, Len: n, Cap: c, Elem: elem}
	}
	arr := &SymArr{Elem: elem, N: c}
	zl := x.flatten(st, elem, x.zero(elem))
	for i, s := range x.leafSorts(elem) {
		arr.Leaves = append(arr.Leaves, x.C.AConst(x.C.Arr(x.C.BV(64), s), zl[i]))
	}
	id := x.newObj(st, types.NewSlice(elem), arr, "make")
	return &SliceV{Obj: id, Off: z, Len: n, Cap: c, Elem: elem}
}

func (x *Exec) emptyMap(mt *types.Map) *MapObj {
	ks := x.keySort(mt.Key())
	m := &MapObj{KT: mt.Key(), VT: mt.Elem(), Dom: x.C.AConst(x.C.Arr(ks, x.C.Bool), x.C.False), Len: x.C.Const(0, 64)}
	st := x.global
	zl := x.flatten(st, mt.Elem(), x.zero(mt.Elem()))
	for i, s := range x.leafSorts(mt.Elem()) {
		m.Vals = append(m.Vals, x.C.AConst(x.C.Arr(ks, s), zl[i]))
	}
	return m
}

func (x *Exec) mapStore(st *State, m *MapV, k *Term, v Val, in ssa.Instruction) {
	mo := st.get(m.Obj).V.(*MapObj)
	n := &MapObj{KT: mo.KT, VT: mo.VT}
	had := x.C.Select(mo.Dom, k)
	n.Len = x.C.Ite(had, mo.Len, x.C.Add(mo.Len, x.C.Const(1, 64)))
	n.Dom = x.C.AStore(mo.Dom, k, x.C.True)
	ls := x.flatten(st, mo.VT, v)
	for i := range mo.Vals {
		n.Vals = append(n.Vals, x.C.AStore(mo.Vals[i], k, ls[i]))
	}
	st.set(m.Obj, n)
}

func (x *Exec) mapDelete(st *State, m *MapV, k *Term) {
	mo := st.get(m.Obj).V.(*MapObj)
	n := *mo
	had := x.C.Select(mo.Dom, k)
	n.Len = x.C.Ite(had, x.C.Sub(mo.Len, x.C.Const(1, 64)), mo.Len)
	n.Dom = x.C.AStore(mo.Dom, k, x.C.False)
	st.set(m.Obj, &n)
}

func (x *Exec) mapGet(st *State, m *MapV, k *Term, vt types.Type) (Val, *Term) {
	if m.Obj == 0 {
		return x.zero(vt), x.C.False
	}
	mo := st.get(m.Obj).V.(*MapObj)
	in := x.C.Select(mo.Dom, k)
	if !k.bound {
		// a map with an element is not empty
		x.C.AddAxiom(x.C.Or(x.C.Not(in), x.C.Not(x.C.Eq(mo.Len, x.C.Const(0, 64)))))
	}
	zl := x.flatten(st, vt, x.zero(vt))
	var ls []*Term
	for i := range mo.Vals {
		ls = append(ls, x.C.Ite(in, x.C.Select(mo.Vals[i], k), zl[i]))
	}
	v, _ := x.unflatten(st, vt, ls)
	return v, in
}

func (x *Exec) lookup(st *State, fr *Frame, t *ssa.Lookup) []CallOut {
	m := x.val(st, fr, t.X)
	if s, ok := m.(*Term); ok {
		i := x.idx64(st, x.val(st, fr, t.Index).(*Term), t.Index.Type())
		cont, outs := x.check(st, x.C.Ult(i, x.C.StrLen(s)), "index", "index out of range", t)
		if cont {
			outs = append(outs, CallOut{st: st, ret: x.C.StrAt(s, i)})
		}
		return outs
	}
	mv := m.(*MapV)
	mt := t.X.Type().Underlying().(*types.Map)
	k := x.keyTerm(st, mt.Key(), x.val(st, fr, t.Index))
	v, in := x.mapGet(st, mv, k, mt.Elem())
	mk := func(st *State, v Val, in *Term) CallOut {
		if t.CommaOk {
			return CallOut{st: st, ret: &TupleV{E: []Val{v, in}}}
		}
		return CallOut{st: st, ret: v}
	}
	return []CallOut{mk(st, v, in)}
}

func (x *Exec) next(st *State, fr *Frame, t *ssa.Next) []CallOut {
	p := x.val(st, fr, t.Iter).(*PtrV)
	it := st.get(p.Obj).V.(*IterObj)
	C := x.C
	tup := t.Type().(*types.Tuple)
	zeroOr := func(i int) Val {
		ty := tup.At(i).Type()
		if b, ok := ty.(*types.Basic); ok && b.Kind() == types.Invalid {
			return C.False
		}
		return x.zero(ty)
	}
	if t.IsString {
		n := C.StrLen(it.Str)
		var outs []CallOut
		more := C.Ult(it.Pos, n)
		if x.feasible(st, more) {
			s1 := st.clone()
			s1.assume(more)
			r, w := x.runeAt(s1, it.Str, it.Pos)
			ni := *it
			ni.Pos = C.Add(it.Pos, w)
			s1.set(p.Obj, &ni)
			outs = append(outs, CallOut{st: s1, ret: &TupleV{E: []Val{C.True, it.Pos, r}}})
		}
		if x.feasible(st, C.Not(more)) {
			s2 := st.clone()
			s2.assume(C.Not(more))
			outs = append(outs, CallOut{st: s2, ret: &TupleV{E: []Val{C.False, zeroOr(1), zeroOr(2)}}})
		}
		return outs
	}
	if it.MapID == 0 {
		return one(st, &TupleV{E: []Val{C.False, zeroOr(1), zeroOr(2)}})
	}
	mo := st.get(it.MapID).V.(*MapObj)
	ks := mo.Dom.Sort.Key
	var outs []CallOut
	// while nothing is added or removed Pos counts the elements visited
	same := it.Dom == mo.Dom
	// another element: any key in the map not visited yet
	k := C.Fresh("key", ks)
	if d := mo.Dom; d.Op == OAStore && d.Args[0].Op == OAConst && d.Args[0].Args[0] == C.False {
		k = d.Args[1] // the only key there may be
	}
	s1 := st.clone()
	cond := C.And(C.Select(mo.Dom, k), C.Not(C.Select(it.Visited, k)))
	if x.feasible(s1, cond) {
		s1.assume(cond)
		if same {
			s1.assume(C.Ult(it.Pos, mo.Len))
		}
		v, _ := x.mapGet(s1, &MapV{Obj: it.MapID}, k, mo.VT)
		ni := *it
		ni.Visited = C.AStore(it.Visited, k, C.True)
		ni.Order = C.AStore(it.Order, k, it.Pos)
		ni.Pos = C.Add(it.Pos, C.Const(1, 64))
		if !same {
			ni.Dom = nil
		}
		s1.set(p.Obj, &ni)
		kv := x.keyVal(s1, mo.KT, k)
		outs = append(outs, CallOut{st: s1, ret: &TupleV{E: []Val{C.True, kv, v}}})
	}
	// done: every key of the map has been visited
	q := C.BoundVar(ks)
	all := C.Forall(q, C.Or(C.Not(C.Select(mo.Dom, q)), C.Select(it.Visited, q)))
	s2 := st.clone()
	if all != C.False {
		s2.assume(all)
		if same {
			s2.assume(C.Eq(it.Pos, mo.Len))
		}
		if x.feasible(s2, C.True) {
			outs = append(outs, CallOut{st: s2, ret: &TupleV{E: []Val{C.False, zeroOr(1), zeroOr(2)}}})
		}
	}
	return outs
}

// runeAt decodes the rune of s at pos; ASCII bytes decode to themselves.
func (x *Exec) runeAt(st *State, s, pos *Term) (r, w *Term) {
	C := x.C
	b := C.StrAt(s, pos)
	ascii := C.Ult(b, C.Const(0x80, 8))
	ur := C.App("srune", C.BV(32), s, pos)
	uw := C.App("srunew", C.BV(64), s, pos)
	r = C.Ite(ascii, C.Zext(b, 32), ur)
	w = C.Ite(ascii, C.Const(1, 64), uw)
	st.assume(C.Or(ascii, C.And(C.Ule(C.Const(1, 64), uw), C.Ule(uw, C.Const(4, 64)), C.Ule(C.Add(pos, uw), C.StrLen(s)), C.Ule(C.Const(0x80, 32), ur), C.Ule(ur, C.Const(0x10FFFF, 32)))))
	return
}

// withPtr resolves a pointer value to concrete objects, checking for nil.
func (x *Exec) withPtr(st *State, v Val, in ssa.Instruction, f func(*State, *PtrV) []CallOut) []CallOut {
	switch p := v.(type) {
	case *PtrV:
		if p.Obj == 0 {
			_, outs := x.check(st, x.C.False, "nil", "nil pointer dereference", in)
			return outs
		}
		return f(st, p)
	case *SymPtr:
		cont, outs := x.check(st, x.C.Not(x.C.Eq(p.Ref, x.C.Const(0, boxW))), "nil", "nil pointer dereference", in)
		if !cont {
			return outs
		}
		for _, r := range x.resolve(st, p) {
			outs = append(outs, f(r.st, r.p)...)
		}
		return outs
	}
	panic(unsupported("dereference of %T", v))
}

type resolved struct {
	st *State
	p  *PtrV
}

// resolve enumerates what an opaque non-nil pointer may denote: a known object
// that was stored into a container, or an unknown object of its type.
func (x *Exec) resolve(st *State, p *SymPtr) []resolved {
	C := x.C
	tk := p.Elem.String()
	var res []resolved
	none := C.True
	// same reference already materialised
	for _, e := range st.regions[tk] {
		if e.ref == p.Ref && !st.weak[e.obj] {
			return []resolved{{st, &PtrV{Obj: e.obj}}}
		}
	}
	for _, o := range st.escaped[tk] {
		id := C.Const(uint64(x.boxIdx[fmt.Sprintf("p%d", o)]), boxW)
		eq := C.Eq(p.Ref, id)
		c := C.And(none, eq)
		if x.feasible(st, c) {
			s := st.clone()
			s.assume(c)
			res = append(res, resolved{s, &PtrV{Obj: o}})
		}
		none = C.And(none, C.Not(eq))
	}
	for _, e := range st.regions[tk] {
		eq := C.Eq(p.Ref, e.ref)
		c := C.And(none, eq)
		if x.feasible(st, c) {
			s := st.clone()
			s.assume(c)
			res = append(res, resolved{s, &PtrV{Obj: e.obj}})
		}
		none = C.And(none, C.Not(eq))
	}
	if x.feasible(st, none) {
		s := st.clone()
		s.assume(none)
		v := x.regionVal(s, p.Elem, p.Ref, "rg!"+sanitize(tk)+st.regver[tk])
		id := x.newObj(s, p.Elem, v, "region")
		s.heap[id].Init = v
		s.regions[tk] = append(s.regions[tk], regionEnt{p.Ref, id})
		// from now on references equal to this one denote this object
		res = append(res, resolved{s, &PtrV{Obj: id}})
	}
	return res
}

// regionVal is the unknown initial contents of the object named by ref.
func (x *Exec) regionVal(st *State, t types.Type, ref *Term, name string) Val {
	ls := x.leafSorts(t)
	var ts []*Term
	for i, s := range ls {
		ts = append(ts, x.C.App(fmt.Sprintf("%s.%d", name, i), s, ref))
	}
	v, _ := x.unflatten(st, t, ts)
	return v
}

func (x *Exec) arrayIndex(st *State, av *ArrayV, i *Term) []CallOut {
	if i.IsConst() {
		return one(st, av.E[i.Val])
	}
	// merge elements when shapes agree
	m := &merger{x: x, a: st, b: st, pa: map[int]int{}, pb: map[int]int{}}
	v, ok := func() (v Val, ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(noMerge); is {
					ok = false
					return
				}
				panic(r)
			}
		}()
		n := len(av.E)
		v = av.E[n-1]
		for k := n - 2; k >= 0; k-- {
			m.g = x.C.Eq(i, x.C.Const(uint64(k), 64))
			v = m.merge(av.E[k], v)
		}
		return v, true
	}()
	if ok {
		return one(st, v)
	}
	var outs []CallOut
	for k := range av.E {
		c := x.C.Eq(i, x.C.Const(uint64(k), 64))
		if x.feasible(st, c) {
			s := st.clone()
			s.assume(c)
			outs = append(outs, CallOut{st: s, ret: av.E[k]})
		}
	}
	return outs
}

// loadPath reads through a path inside a value.
func (x *Exec) loadPath(st *State, v Val, t types.Type, path []PathEl) []CallOut {
	if len(path) == 0 {
		return one(st, v)
	}
	e := path[0]
	switch c := v.(type) {
	case *StructV:
		ft := t.Underlying().(*types.Struct).Field(e.Fld).Type()
		return x.loadPath(st, c.F[e.Fld], ft, path[1:])
	case *ArrayV:
		var outs []CallOut
		et := elemType(t)
		for _, o := range x.arrayIndex(st, c, e.Idx) {
			outs = append(outs, x.loadPath(o.st, o.ret, et, path[1:])...)
		}
		return outs
	case *SymArr:
		var ls []*Term
		for _, a := range c.Leaves {
			ls = append(ls, x.C.Select(a, e.Idx))
		}
		ev, _ := x.unflatten(st, c.Elem, ls)
		return x.loadPath(st, ev, c.Elem, path[1:])
	case *LamArr:
		var outs []CallOut
		for _, o := range x.lamGet(st, c, e.Idx) {
			outs = append(outs, x.loadPath(o.st, o.ret, c.Elem, path[1:])...)
		}
		return outs
	case *Term:
		panic(unsupported("field access inside opaque type %v", t))
	}
	panic(unsupported("load path on %T", v))
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	}
	panic(unsupported("element of %v", t))
}

func (x *Exec) lamGet(st *State, c *LamArr, i *Term) []CallOut {
	for k := len(c.over) - 1; k >= 0; k-- {
		s := c.over[k]
		eq := x.C.Eq(s.idx, i)
		if eq == x.C.True {
			return one(st, s.v)
		}
		if eq != x.C.False {
			// split
			var outs []CallOut
			if x.feasible(st, eq) {
				s1 := st.clone()
				s1.assume(eq)
				outs = append(outs, CallOut{st: s1, ret: s.v})
			}
			ne := x.C.Not(eq)
			if x.feasible(st, ne) {
				s2 := st.clone()
				s2.assume(ne)
				rest := *c
				rest.over = c.over[:k]
				outs = append(outs, x.lamGet(s2, &rest, i)...)
			}
			return outs
		}
	}
	if v, ok := c.memo[i.ID]; ok {
		// the generator allocates per index; its value is shared by index term
		if objsPresent(st, v) {
			return one(st, v)
		}
	}
	outs := x.callValue(st, c.Gen, []Val{i}, nil, nil)
	if len(outs) == 1 && outs[0].p == nil {
		c.memo[i.ID] = outs[0].ret
	}
	return outs
}

func objsPresent(st *State, v Val) bool {
	switch p := v.(type) {
	case *Term:
		return true
	case *PtrV:
		return p.Obj == 0 || st.get(p.Obj) != nil
	case *StructV:
		for _, f := range p.F {
			if !objsPresent(st, f) {
				return false
			}
		}
		return true
	case *ArrayV:
		for _, f := range p.E {
			if !objsPresent(st, f) {
				return false
			}
		}
		return true
	case *SliceV:
		return p.Obj == 0 || st.get(p.Obj) != nil
	case *MapV:
		return p.Obj == 0 || st.get(p.Obj) != nil
	case *IfaceV:
		return p.T == nil || objsPresent(st, p.V)
	}
	return true
}

func (x *Exec) load(st *State, p *PtrV, in ssa.Instruction) []CallOut {
	o := st.get(p.Obj)
	if o == nil {
		panic(unsupported("dangling object"))
	}
	return x.loadPath(st, o.V, o.T, p.Path)
}

func (x *Exec) storePath(st *State, v Val, t types.Type, path []PathEl, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	e := path[0]
	switch c := v.(type) {
	case *StructV:
		n := &StructV{F: append([]Val(nil), c.F...)}
		ft := t.Underlying().(*types.Struct).Field(e.Fld).Type()
		n.F[e.Fld] = x.storePath(st, c.F[e.Fld], ft, path[1:], nv)
		return n
	case *ArrayV:
		et := elemType(t)
		n := &ArrayV{E: append([]Val(nil), c.E...)}
		if e.Idx.IsConst() {
			n.E[e.Idx.Val] = x.storePath(st, c.E[e.Idx.Val], et, path[1:], nv)
			return n
		}
		m := &merger{x: x, a: st, b: st, pa: map[int]int{}, pb: map[int]int{}}
		for k := range n.E {
			m.g = x.C.Eq(e.Idx, x.C.Const(uint64(k), 64))
			if m.g == x.C.False {
				continue
			}
			n.E[k] = m.merge(x.storePath(st, c.E[k], et, path[1:], nv), c.E[k])
		}
		return n
	case *SymArr:
		ev := nv
		if len(path) > 1 {
			var ls []*Term
			for _, a := range c.Leaves {
				ls = append(ls, x.C.Select(a, e.Idx))
			}
			old, _ := x.unflatten(st, c.Elem, ls)
			ev = x.storePath(st, old, c.Elem, path[1:], nv)
		}
		ls := x.flatten(st, c.Elem, ev)
		n := &SymArr{Elem: c.Elem, N: c.N}
		for i, a := range c.Leaves {
			if len(path) > 1 && x.C.Select(a, e.Idx) == ls[i] {
				n.Leaves = append(n.Leaves, a)
			} else {
				n.Leaves = append(n.Leaves, x.C.AStore(a, e.Idx, ls[i]))
			}
		}
		return n
	case *LamArr:
		n := *c
		ev := nv
		if len(path) > 1 {
			outs := x.lamGet(st, c, e.Idx)
			if len(outs) != 1 || outs[0].p != nil {
				panic(unsupported("partial store into generated array"))
			}
			ev = x.storePath(st, outs[0].ret, c.Elem, path[1:], nv)
		}
		n.over = append(c.over[:len(c.over):len(c.over)], lamStore{e.Idx, ev})
		return &n
	}
	panic(unsupported("store path on %T", v))
}

// writable refuses writes whose effect on other views is not tracked.
func (x *Exec) writable(st *State, id int) {
	o := st.get(id)
	if o.Name == "readonly" {
		panic(unsupported("write through a slice of a nested array"))
	}
	if o.Name != "region slice" {
		return
	}
	es := st.regions["[]"+o.T.Underlying().(*types.Slice).Elem().String()]
	for _, e := range es {
		if e.obj != id {
			continue
		}
		for _, f := range es {
			if f.obj != id && x.feasible(st, x.C.Eq(e.ref, f.ref)) {
				panic(unsupported("write to one of two slices that may share elements"))
			}
		}
	}
}

func (x *Exec) store(st *State, p *PtrV, v Val, in ssa.Instruction) []CallOut {
	o := st.get(p.Obj)
	if o == nil {
		panic(unsupported("dangling object"))
	}
	x.writable(st, p.Obj)
	nv, ok := func() (nv Val, ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(noMerge); is {
					ok = false
					return
				}
				panic(r)
			}
		}()
		return x.storePath(st, o.V, o.T, p.Path, v), true
	}()
	if ok {
		st.set(p.Obj, nv)
		return one(st, nil)
	}
	// a symbolic index into a fixed array with unmergeable elements: split
	for pi, e := range p.Path {
		if e.Idx != nil && !e.Idx.IsConst() {
			n := x.arrLenAt(st, o, p.Path[:pi])
			var outs []CallOut
			for k := 0; k < n; k++ {
				c := x.C.Eq(e.Idx, x.C.Const(uint64(k), 64))
				if x.feasible(st, c) {
					s := st.clone()
					s.assume(c)
					np := append([]PathEl(nil), p.Path...)
					np[pi] = PathEl{Idx: x.C.Const(uint64(k), 64)}
					outs = append(outs, x.store(s, &PtrV{Obj: p.Obj, Path: np}, v, in)...)
				}
			}
			return outs
		}
	}
	panic(unsupported("store"))
}

func (x *Exec) arrLenAt(st *State, o *Obj, path []PathEl) int {
	outs := x.loadPath(st, o.V, o.T, path)
	if len(outs) == 1 {
		if av, ok := outs[0].ret.(*ArrayV); ok {
			return len(av.E)
		}
	}
	panic(unsupported("symbolic store into nested array"))
}

func (x *Exec) indexAddr(st *State, fr *Frame, t *ssa.IndexAddr) []CallOut {
	v := x.val(st, fr, t.X)
	i := x.idx64(st, x.val(st, fr, t.Index).(*Term), t.Index.Type())
	switch p := v.(type) {
	case *SliceV:
		cont, outs := x.check(st, x.C.Ult(i, p.Len), "index", "index out of range", t)
		if cont {
			outs = append(outs, CallOut{st: st, ret: &PtrV{Obj: p.Obj, Path: []PathEl{{Idx: x.C.Add(p.Off, i)}}}})
		}
		return outs
	case *SymSlice:
		sl := x.materSlice(st, p)
		cont, outs := x.check(st, x.C.Ult(i, sl.Len), "index", "index out of range", t)
		if cont {
			outs = append(outs, CallOut{st: st, ret: &PtrV{Obj: sl.Obj, Path: []PathEl{{Idx: x.C.Add(sl.Off, i)}}}})
		}
		return outs
	}
	at := t.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	return x.withPtr(st, v, t, func(st *State, p *PtrV) []CallOut {
		cont, outs := x.check(st, x.C.Ult(i, x.C.Const(uint64(at.Len()), 64)), "index", "index out of range", t)
		if cont {
			outs = append(outs, CallOut{st: st, ret: &PtrV{Obj: p.Obj, Path: appendPath(p.Path, PathEl{Idx: i})}})
		}
		return outs
	})
}

// materSlice gives an opaque slice a backing array of unknown contents.
func (x *Exec) materSlice(st *State, s *SymSlice) *SliceV {
	if s.Ref.IsConst() && s.Ref.Val == 0 {
		return x.zero(types.NewSlice(s.Elem)).(*SliceV)
	}
	tk := "[]" + s.Elem.String()
	C := x.C
	n := C.App("sl.len", C.BV(64), s.Ref)
	for _, e := range st.regions[tk] {
		if e.ref == s.Ref {
			return &SliceV{Obj: e.obj, Off: C.Const(0, 64), Len: n, Cap: n, Elem: s.Elem}
		}
	}
	if v := x.iteSlice(st, s); v != nil {
		return v
	}
	if !s.Ref.bound {
		C.AddAxiom(C.Ult(n, C.Const(maxLen, 64)))
		C.AddAxiom(C.Or(C.Not(C.Eq(s.Ref, C.Const(0, boxW))), C.Eq(n, C.Const(0, 64))))
	}
	arr := &SymArr{Elem: s.Elem, N: n}
	for i, so := range x.leafSorts(s.Elem) {
		name := fmt.Sprintf("sl.%s%s.%d", sanitize(s.Elem.String()), st.regver[tk], i)
		arr.Leaves = append(arr.Leaves, C.ABaseOf(name, C.Arr(C.BV(64), so), s.Ref))
	}
	id := x.newObj(st, types.NewSlice(s.Elem), arr, "region slice")
	st.heap[id].Init = arr
	st.regions[tk] = append(st.regions[tk], regionEnt{s.Ref, id})
	return &SliceV{Obj: id, Off: C.Const(0, 64), Len: n, Cap: n, Elem: s.Elem}
}

// iteSlice views a slice that is one of several known ones.
func (x *Exec) iteSlice(st *State, s *SymSlice) *SliceV {
	C := x.C
	if s.Ref.Op != OIte || s.Ref.bound {
		return nil
	}
	var ids []*Term
	var walk func(r *Term) bool
	walk = func(r *Term) bool {
		if r.Op == OIte {
			return walk(r.Args[1]) && walk(r.Args[2])
		}
		if r.IsConst() {
			for _, k := range ids {
				if k == r {
					return true
				}
			}
			ids = append(ids, r)
			return len(ids) < 6
		}
		// a reference some path condition relates to a known object
		var find func(t *Term, d int) *Term
		find = func(t *Term, d int) *Term {
			if t.Op == OEq {
				for i := range t.Args {
					if t.Args[i] == r && t.Args[1-i].IsConst() {
						return t.Args[1-i]
					}
				}
				return nil
			}
			if d > 0 && (t.Op == OAnd || t.Op == OOr || t.Op == ONot) {
				for _, a := range t.Args {
					if k := find(a, d-1); k != nil {
						return k
					}
				}
			}
			return nil
		}
		for n := st.pc; n != nil; n = n.prev {
			if k := find(n.t, 5); k != nil {
				return walk(k)
			}
		}
		return true
	}
	if !walk(s.Ref) {
		return nil
	}
	zero := C.Const(0, 64)
	all := C.True
	var r *SliceV
	var arr *SymArr
	for _, k := range ids {
		var v *SliceV
		var a *SymArr
		if k.Val == 0 {
			all = C.And(all, C.Not(C.Eq(s.Ref, k)))
			continue
		}
		if int(k.Val) > len(x.boxTab) {
			return nil
		}
		v, _ = x.boxTab[k.Val-1].(*SliceV)
		if v == nil || st.get(v.Obj) == nil {
			return nil
		}
		if a, _ = st.get(v.Obj).V.(*SymArr); a == nil {
			return nil
		}
		e := C.Eq(s.Ref, k)
		all = C.And(all, C.Not(e))
		n := &SymArr{Elem: s.Elem}
		for i, l := range a.Leaves {
			if v.Off != zero {
				l = C.ACopy(l, zero, l, v.Off, v.Len)
			}
			if arr != nil {
				l = C.AIte(e, l, arr.Leaves[i])
			}
			n.Leaves = append(n.Leaves, l)
		}
		if arr == nil {
			r = &SliceV{Off: zero, Len: v.Len, Cap: v.Len, Elem: s.Elem}
		} else {
			r = &SliceV{Off: zero, Len: C.Ite(e, v.Len, r.Len), Elem: s.Elem}
			r.Cap = r.Len
		}
		arr = n
	}
	if arr == nil || x.feasible(st, all) {
		return nil
	}
	r.Len = C.Ite(C.Eq(s.Ref, C.Const(0, boxW)), zero, r.Len)
	r.Cap = r.Len
	r.Obj = x.newObj(st, types.NewSlice(s.Elem), arr, "readonly")
	return r
}

func (x *Exec) asSlice(st *State, v Val) *SliceV {
	switch p := v.(type) {
	case *SliceV:
		return p
	case *SymSlice:
		return x.materSlice(st, p)
	}
	panic(unsupported("slice expected, got %T", v))
}

func (x *Exec) sliceOp(st *State, fr *Frame, t *ssa.Slice) []CallOut {
	C := x.C
	v := x.val(st, fr, t.X)
	var lo, hi, mx *Term
	if t.Low != nil {
		lo = x.idx64(st, x.val(st, fr, t.Low).(*Term), t.Low.Type())
	} else {
		lo = C.Const(0, 64)
	}
	if t.High != nil {
		hi = x.idx64(st, x.val(st, fr, t.High).(*Term), t.High.Type())
	}
	if t.Max != nil {
		mx = x.idx64(st, x.val(st, fr, t.Max).(*Term), t.Max.Type())
	}
	if ss, ok := v.(*SymSlice); ok {
		v = x.materSlice(st, ss)
	}
	switch p := v.(type) {
	case *Term: // string
		if hi == nil {
			hi = C.StrLen(p)
		}
		ok := C.And(C.Ule(lo, hi), C.Ule(hi, C.StrLen(p)))
		cont, outs := x.check(st, ok, "slice", "slice bounds out of range", t)
		if cont {
			outs = append(outs, CallOut{st: st, ret: C.StrSub(p, lo, hi)})
		}
		return outs
	case *SliceV:
		if hi == nil {
			hi = p.Len
		}
		lim := p.Cap
		if mx != nil {
			lim = mx
		}
		ok := C.And(C.Ule(lo, hi), C.Ule(hi, lim))
		if mx != nil {
			ok = C.And(ok, C.Ule(mx, p.Cap))
		}
		cont, outs := x.check(st, ok, "slice", "slice bounds out of range", t)
		if cont {
			n := &SliceV{Obj: p.Obj, Off: C.Add(p.Off, lo), Len: C.Sub(hi, lo), Cap: C.Sub(lim, lo), Elem: p.Elem}
			outs = append(outs, CallOut{st: st, ret: n})
		}
		return outs
	}
	// pointer to array
	at := t.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	return x.withPtr(st, v, t, func(st *State, p *PtrV) []CallOut {
		n := C.Const(uint64(at.Len()), 64)
		h := hi
		if h == nil {
			h = n
		}
		lim := n
		if mx != nil {
			lim = mx
		}
		ok := C.And(C.Ule(lo, h), C.Ule(h, lim), C.Ule(lim, n))
		cont, outs := x.check(st, ok, "slice", "slice bounds out of range", t)
		if !cont {
			return outs
		}
		if len(p.Path) != 0 {
			// an array inside another object: give it its own identity by
			// moving it to a separate object is not possible in general
			o := st.get(p.Obj)
			lo2 := x.loadPath(st, o.V, o.T, p.Path)
			if len(lo2) != 1 {
				panic(unsupported("slicing nested array"))
			}
			return append(outs, CallOut{st: st, ret: x.sliceNested(st, p, lo2[0].ret, at, lo, h, lim)})
		}
		outs = append(outs, CallOut{st: st, ret: &SliceV{Obj: p.Obj, Off: lo, Len: C.Sub(h, lo), Cap: C.Sub(lim, lo), Elem: at.Elem()}})
		return outs
	})
}

// sliceNested copies the nested array to a read-only object. Writes through
// the slice would be lost, so the copy is marked read-only.
func (x *Exec) sliceNested(st *State, p *PtrV, v Val, at *types.Array, lo, hi, lim *Term) Val {
	id := x.newObj(st, at, v, "readonly")
	return &SliceV{Obj: id, Off: lo, Len: x.C.Sub(hi, lo), Cap: x.C.Sub(lim, lo), Elem: at.Elem()}
}

func (x *Exec) typeAssert(st *State, fr *Frame, t *ssa.TypeAssert) []CallOut {
	v := x.val(st, fr, t.X)
	C := x.C
	mk := func(st *State, val Val, ok bool) []CallOut {
		if t.CommaOk {
			if !ok {
				val = x.zero(t.AssertedType)
			}
			return one(st, &TupleV{E: []Val{val, C.BoolC(ok)}})
		}
		if !ok {
			_, outs := x.check(st, C.False, "typeassert", "interface conversion", t)
			return outs
		}
		return one(st, val)
	}
	switch p := v.(type) {
	case *IfaceV:
		if p.T == nil {
			return mk(st, nil, false)
		}
		if it, ok := t.AssertedType.Underlying().(*types.Interface); ok {
			return mk(st, p, types.Implements(p.T, it))
		}
		return mk(st, p.V, types.Identical(p.T, t.AssertedType))
	case *SymIface:
		if _, isI := t.AssertedType.Underlying().(*types.Interface); isI {
			// asserting to the same interface: holds exactly when non-nil for error/any
			nn := C.Not(C.Eq(p.Ref, C.Const(0, boxW)))
			if t.CommaOk {
				return one(st, &TupleV{E: []Val{p, nn}})
			}
			cont, outs := x.check(st, nn, "typeassert", "interface conversion", t)
			if cont {
				outs = append(outs, CallOut{st: st, ret: p})
			}
			return outs
		}
		tn := sanitize(t.AssertedType.String())
		is := C.And(C.Not(C.Eq(p.Ref, C.Const(0, boxW))), C.Eq(C.App("dyntype", C.BV(32), p.Ref), C.Const(x.typeID(t.AssertedType), 32)))
		var ls []*Term
		for i, s := range x.leafSorts(t.AssertedType) {
			ls = append(ls, C.App(fmt.Sprintf("pay.%s.%d", tn, i), s, p.Ref))
		}
		val, _ := x.unflatten(st, t.AssertedType, ls)
		var outs []CallOut
		if t.CommaOk {
			if x.feasible(st, is) {
				s1 := st.clone()
				s1.assume(is)
				outs = append(outs, CallOut{st: s1, ret: &TupleV{E: []Val{val, C.True}}})
			}
			if x.feasible(st, C.Not(is)) {
				s2 := st.clone()
				s2.assume(C.Not(is))
				outs = append(outs, CallOut{st: s2, ret: &TupleV{E: []Val{x.zero(t.AssertedType), C.False}}})
			}
			return outs
		}
		cont, outs := x.check(st, is, "typeassert", "interface conversion", t)
		if cont {
			outs = append(outs, CallOut{st: st, ret: val})
		}
		return outs
	}
	panic(unsupported("type assertion on %T", v))
}

func (x *Exec) typeID(t types.Type) uint64 {
	k := t.String()
	if id, ok := x.typeIDs[k]; ok {
		return id
	}
	id := uint64(len(x.typeIDs) + 1)
	x.typeIDs[k] = id
	return id
}

func (x *Exec) unop(st *State, fr *Frame, t *ssa.UnOp) []CallOut {
	v := x.val(st, fr, t.X)
	switch t.Op {
	case token.MUL:
		return x.withPtr(st, v, t, func(st *State, p *PtrV) []CallOut { return x.load(st, p, t) })
	case token.NOT:
		return one(st, x.C.Not(v.(*Term)))
	case token.SUB:
		if w, ok := floatWidth(t.Type()); ok {
			tv := v.(*Term)
			return one(st, x.C.BXor(tv, x.C.Const(1<<uint(w-1), w)))
		}
		return one(st, x.C.Neg(v.(*Term)))
	case token.XOR:
		return one(st, x.C.BNot(v.(*Term)))
	case token.ARROW:
		r, ok := x.receive(st, v, t.X.Type())
		if t.CommaOk {
			return one(st, &TupleV{E: []Val{r, ok}})
		}
		return one(st, r)
	}
	panic(unsupported("unary %v", t.Op))
}

func (x *Exec) binop(st *State, fr *Frame, t *ssa.BinOp) []CallOut {
	a, b := x.val(st, fr, t.X), x.val(st, fr, t.Y)
	C := x.C
	ty := t.X.Type()
	switch t.Op {
	case token.EQL:
		return one(st, x.eqOp(st, ty, t.Y.Type(), a, b))
	case token.NEQ:
		return one(st, C.Not(x.eqOp(st, ty, t.Y.Type(), a, b)))
	}
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported("binary %v on %T", t.Op, a))
	}
	if ta.Sort == C.StrS {
		switch t.Op {
		case token.ADD:
			return one(st, C.StrCat(ta, tb))
		case token.LSS:
			return one(st, C.StrLt(ta, tb))
		case token.GTR:
			return one(st, C.StrLt(tb, ta))
		case token.LEQ:
			return one(st, C.Not(C.StrLt(tb, ta)))
		case token.GEQ:
			return one(st, C.Not(C.StrLt(ta, tb)))
		}
	}
	if w, ok := floatWidth(ty); ok {
		switch t.Op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return one(st, x.fbin(t.Op, w, ta, tb))
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return one(st, x.fcmp(t.Op.String(), ta, tb))
		}
	}
	w, signed, ok := intInfo(ty)
	if !ok {
		if ta.Sort == C.Bool {
			switch t.Op {
			case token.AND:
				return one(st, C.And(ta, tb))
			case token.OR:
				return one(st, C.Or(ta, tb))
			}
		}
		panic(unsupported("binary %v on %v", t.Op, ty))
	}
	switch t.Op {
	case token.ADD:
		return one(st, C.Add(ta, tb))
	case token.SUB:
		return one(st, C.Sub(ta, tb))
	case token.MUL:
		return one(st, C.Mul(ta, tb))
	case token.QUO, token.REM:
		cont, outs := x.check(st, C.Not(C.Eq(tb, C.Const(0, w))), "divide", "integer divide by zero", t)
		if !cont {
			return outs
		}
		var r *Term
		switch {
		case t.Op == token.QUO && signed:
			r = C.SDiv(ta, tb)
		case t.Op == token.QUO:
			r = C.UDiv(ta, tb)
		case signed:
			r = C.SRem(ta, tb)
		default:
			r = C.URem(ta, tb)
		}
		return append(outs, CallOut{st: st, ret: r})
	case token.AND:
		return one(st, C.BAnd(ta, tb))
	case token.OR:
		return one(st, C.BOr(ta, tb))
	case token.XOR:
		return one(st, C.BXor(ta, tb))
	case token.AND_NOT:
		return one(st, C.BAnd(ta, C.BNot(tb)))
	case token.SHL, token.SHR:
		_, ssigned, _ := intInfo(t.Y.Type())
		var outs []CallOut
		if ssigned && !tb.IsConst() {
			var cont bool
			cont, outs = x.check(st, C.Sle(C.Const(0, tb.Sort.Width), tb), "shift", "negative shift amount", t)
			if !cont {
				return outs
			}
		}
		// bring the amount to the operand width, saturating
		amt := tb
		aw := tb.Sort.Width
		if aw < w {
			amt = C.Zext(tb, w)
		} else if aw > w {
			big := C.Not(C.Ult(tb, C.Const(uint64(w), aw)))
			amt = C.Ite(big, C.Const(uint64(w), w), C.Extract(tb, w-1, 0))
		}
		var r *Term
		switch {
		case t.Op == token.SHL:
			r = C.Shl(ta, amt)
		case signed:
			r = C.Ashr(ta, amt)
		default:
			r = C.Lshr(ta, amt)
		}
		return append(outs, CallOut{st: st, ret: r})
	case token.LSS:
		if signed {
			return one(st, C.Slt(ta, tb))
		}
		return one(st, C.Ult(ta, tb))
	case token.LEQ:
		if signed {
			return one(st, C.Sle(ta, tb))
		}
		return one(st, C.Ule(ta, tb))
	case token.GTR:
		if signed {
			return one(st, C.Slt(tb, ta))
		}
		return one(st, C.Ult(tb, ta))
	case token.GEQ:
		if signed {
			return one(st, C.Sle(tb, ta))
		}
		return one(st, C.Ule(tb, ta))
	}
	panic(unsupported("binary %v", t.Op))
}

func (x *Exec) eqOp(st *State, ta, tb types.Type, a, b Val) *Term {
	ia, ib := types.IsInterface(ta), types.IsInterface(tb)
	if ia && !ib {
		b = &IfaceV{T: tb, V: b}
	} else if ib && !ia {
		a = &IfaceV{T: ta, V: a}
		ta = tb
	}
	if _, ok := ta.Underlying().(*types.Slice); ok {
		if x.isNil(b) == x.C.True {
			return x.isNil(a)
		}
		return x.isNil(b)
	}
	return x.valEq(st, ta, a, b)
}

// Floats are bit patterns. Comparison is defined on the bits; arithmetic and
// conversions are uninterpreted except on constants.

func (x *Exec) fconst(f float64, w int) *Term {
	if w == 32 {
		return x.C.Const(uint64(math.Float32bits(float32(f))), 32)
	}
	return x.C.Const(math.Float64bits(f), 64)
}

func fval(t *Term) float64 {
	if t.Sort.Width == 32 {
		return float64(math.Float32frombits(uint32(t.Val)))
	}
	return math.Float64frombits(t.Val)
}

func (x *Exec) fIsNaN(a *Term) *Term {
	w := a.Sort.Width
	inf := uint64(0x7F800000)
	if w == 64 {
		inf = 0x7FF0000000000000
	}
	m := x.C.BAnd(a, x.C.Const(mask(w)>>1, w))
	return x.C.Ult(x.C.Const(inf, w), m)
}

func (x *Exec) fcmp(op string, a, b *Term) *Term {
	C := x.C
	if a.IsConst() && b.IsConst() {
		fa, fb := fval(a), fval(b)
		switch op {
		case "==":
			return C.BoolC(fa == fb)
		case "<":
			return C.BoolC(fa < fb)
		case "<=":
			return C.BoolC(fa <= fb)
		case ">":
			return C.BoolC(fa > fb)
		case ">=":
			return C.BoolC(fa >= fb)
		}
	}
	if ia, ok := x.asInteger(a); ok {
		if ib, ok := x.asInteger(b); ok {
			switch op {
			case "==":
				return C.Eq(ia, ib)
			case "<":
				return C.Slt(ia, ib)
			case "<=":
				return C.Sle(ia, ib)
			case ">":
				return C.Slt(ib, ia)
			case ">=":
				return C.Sle(ib, ia)
			}
		}
	}
	w := a.Sort.Width
	nn := C.And(C.Not(x.fIsNaN(a)), C.Not(x.fIsNaN(b)))
	magm := C.Const(mask(w)>>1, w)
	ma, mb := C.BAnd(a, magm), C.BAnd(b, magm)
	zero := C.Const(0, w)
	bothz := C.And(C.Eq(ma, zero), C.Eq(mb, zero))
	eq := C.Or(C.Eq(a, b), bothz)
	// order key: negative values reversed below non-negative ones
	key := func(v, m *Term) *Term {
		neg := C.Slt(v, zero)
		return C.Ite(neg, C.Neg(m), m)
	}
	lt := C.Slt(key(a, ma), key(b, mb))
	gt := C.Slt(key(b, mb), key(a, ma))
	switch op {
	case "==":
		return C.And(nn, eq)
	case "<":
		return C.And(nn, lt)
	case "<=":
		return C.And(nn, C.Not(gt))
	case ">":
		return C.And(nn, gt)
	case ">=":
		return C.And(nn, C.Not(lt))
	}
	panic("fcmp " + op)
}

// asInteger gives the integer a float64 stands for when that is exact: a
// constant below 2^53 or the conversion of an integer of at most 32 bits.
func (x *Exec) asInteger(t *Term) (*Term, bool) {
	if t.Sort.Width != 64 {
		return nil, false
	}
	if t.IsConst() {
		f := fval(t)
		if f == math.Trunc(f) && math.Abs(f) < 1<<53 {
			return x.C.Const(uint64(int64(f)), 64), true
		}
		return nil, false
	}
	if t.Op == OApp && t.Name == "i2f.s64" && (t.Args[0].Op == OSext && t.Args[0].Args[0].Sort.Width <= 32 || t.Args[0].Op == OZext && t.Args[0].Args[0].Sort.Width <= 32) {
		return t.Args[0], true
	}
	return nil, false
}

func (x *Exec) fbin(op token.Token, w int, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		fa, fb := fval(a), fval(b)
		if w == 32 {
			ga, gb := float32(fa), float32(fb)
			var r float32
			switch op {
			case token.ADD:
				r = ga + gb
			case token.SUB:
				r = ga - gb
			case token.MUL:
				r = ga * gb
			case token.QUO:
				r = ga / gb
			}
			return x.C.Const(uint64(math.Float32bits(r)), 32)
		}
		var r float64
		switch op {
		case token.ADD:
			r = fa + fb
		case token.SUB:
			r = fa - fb
		case token.MUL:
			r = fa * fb
		case token.QUO:
			r = fa / fb
		}
		return x.C.Const(math.Float64bits(r), 64)
	}
	x.Assume["floating-point arithmetic is an uninterpreted function of its operands (comparison is exact; + and * taken as commutative)"] = true
	n := map[token.Token]string{token.ADD: "fadd", token.SUB: "fsub", token.MUL: "fmul", token.QUO: "fdiv"}[op]
	if (op == token.ADD || op == token.MUL) && a.ID > b.ID {
		a, b = b, a
	}
	return x.C.App(fmt.Sprintf("%s%d", n, w), x.C.BV(w), a, b)
}

func (x *Exec) convert(st *State, fr *Frame, t *ssa.Convert) []CallOut {
	v := x.val(st, fr, t.X)
	return x.convertVal(st, v, t.X.Type(), t.Type())
}

func (x *Exec) convertVal(st *State, v Val, from, to types.Type) []CallOut {
	C := x.C
	fw, fs, fInt := intInfo(from)
	tw, ts, tInt := intInfo(to)
	ffw, fF := floatWidth(from)
	tfw, tF := floatWidth(to)
	tv, isT := v.(*Term)
	switch {
	case fInt && tInt && isT:
		switch {
		case tw < fw:
			return one(st, C.Extract(tv, tw-1, 0))
		case tw == fw:
			return one(st, tv)
		default:
			return one(st, x.widen(st, tv, tw, fs))
		}
	case fInt && tF:
		if tv.IsConst() {
			if fs {
				return one(st, x.fconst2(float64(sext64(tv.Val, fw)), float32(sext64(tv.Val, fw)), tfw))
			}
			return one(st, x.fconst2(float64(tv.Val), float32(tv.Val), tfw))
		}
		// widen first so that equal numbers of different widths convert equally
		var wide *Term
		n := "u"
		if fs {
			wide = C.Sext(tv, 64)
			n = "s"
		} else {
			wide = C.Zext(tv, 64)
			if fw < 64 {
				n = "s"
			}
		}
		r := C.App(fmt.Sprintf("i2f.%s%d", n, tfw), C.BV(tfw), wide)
		if !wide.bound {
			x.i2fAxioms(r, wide, n == "s")
		}
		return one(st, r)
	case fF && tInt:
		if tv.IsConst() {
			f := fval(tv)
			if ts && f > -9e18 && f < 9e18 {
				return one(st, C.Const(uint64(int64(f)), tw))
			}
			if !ts && f >= 0 && f < 1.8e19 {
				return one(st, C.Const(uint64(f), tw))
			}
		}
		n := "u"
		if ts {
			n = "s"
		}
		return one(st, C.App(fmt.Sprintf("f2i.%d.%s%d", ffw, n, tw), C.BV(tw), tv))
	case fF && tF:
		if ffw == tfw {
			return one(st, tv)
		}
		if tv.IsConst() {
			return one(st, x.fconst(fval(tv), tfw))
		}
		r := C.App(fmt.Sprintf("f2f.%d.%d", ffw, tfw), C.BV(tfw), tv)
		if ffw == 64 && tv.Op == OApp && tv.Name == "f2f.32.64" {
			return one(st, tv.Args[0])
		}
		if ffw == 32 && !tv.bound {
			x.f2fAxioms(r, tv)
		}
		return one(st, r)
	}
	// strings
	fb, fIsB := from.Underlying().(*types.Basic)
	tb, tIsB := to.Underlying().(*types.Basic)
	if tIsB && tb.Info()&types.IsString != 0 {
		if fIsB && fb.Info()&types.IsString != 0 {
			return one(st, v)
		}
		if fIsB && fInt {
			if tv.IsConst() {
				return one(st, C.Str(string(rune(sext64(tv.Val, fw)))))
			}
			return one(st, C.App("rune2str", C.StrS, C.Sext(tv, 64)))
		}
		if sl, ok := from.Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
			return one(st, x.bytesToStr(st, x.asSlice(st, v)))
		}
		if _, ok := from.Underlying().(*types.Slice); ok {
			// runes
			s := x.asSlice(st, v)
			if av, ok := st.objArr(s.Obj); ok {
				key := "runes2str"
				var ts []*Term
				if s.Len.IsConst() && s.Off.IsConst() {
					for i := uint64(0); i < s.Len.Val; i++ {
						ts = append(ts, av.E[s.Off.Val+i].(*Term))
					}
					return one(st, C.App(fmt.Sprintf("%s/%d", key, len(ts)), C.StrS, ts...))
				}
			}
			if sa, ok := st.get(s.Obj).V.(*SymArr); ok {
				return one(st, C.App(fmt.Sprintf("runes2str#%d", sa.Leaves[0].ID), C.StrS, s.Off, s.Len))
			}
		}
	}
	if fIsB && fb.Info()&types.IsString != 0 {
		if sl, ok := to.Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
			return one(st, x.strToBytes(st, tv, sl.Elem()))
		}
		if sl, ok := to.Underlying().(*types.Slice); ok {
			ref := C.App("str2runes", C.BV(boxW), tv)
			x.Assume["[]rune(string) is an uninterpreted function of the string"] = true
			return one(st, x.materSlice(st, &SymSlice{Ref: ref, Elem: sl.Elem()}))
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return one(st, v)
	}
	panic(unsupported("conversion %v to %v", from, to))
}

func (st *State) objArr(id int) (*ArrayV, bool) {
	o := st.get(id)
	if o == nil {
		return nil, false
	}
	av, ok := o.V.(*ArrayV)
	return av, ok
}

func (x *Exec) fconst2(d float64, f float32, w int) *Term {
	if w == 32 {
		return x.C.Const(uint64(math.Float32bits(f)), 32)
	}
	return x.C.Const(math.Float64bits(d), 64)
}

// i2fAxioms: sign and zero of an integer-to-float conversion; never NaN.
func (x *Exec) i2fAxioms(r, i *Term, signed bool) {
	C := x.C
	w := r.Sort.Width
	z := C.Eq(i, C.Const(0, 64))
	C.AddAxiom(C.Eq(z, C.Eq(r, C.Const(0, w))))
	C.AddAxiom(C.Not(x.fIsNaN(r)))
	C.AddAxiom(C.Not(C.Eq(r, C.Const(1<<uint(w-1), w))))
	if signed {
		C.AddAxiom(C.Eq(C.Slt(i, C.Const(0, 64)), C.Slt(r, C.Const(0, w))))
	} else {
		C.AddAxiom(C.Not(C.Slt(r, C.Const(0, w))))
	}
	x.Assume["integer to float conversion is uninterpreted beyond sign, zero and not-NaN"] = true
}

func (x *Exec) f2fAxioms(r, f *Term) {
	C := x.C
	C.AddAxiom(C.Eq(x.fIsNaN(r), x.fIsNaN(f)))
	C.AddAxiom(C.Eq(C.Eq(C.BAnd(r, C.Const(mask(63), 64)), C.Const(0, 64)), C.Eq(C.BAnd(f, C.Const(mask(31), 32)), C.Const(0, 32))))
	C.AddAxiom(C.Eq(C.Slt(r, C.Const(0, 64)), C.Slt(f, C.Const(0, 32))))
	x.Assume["float32 to float64 conversion is uninterpreted beyond sign, zero and NaN"] = true
}

func (x *Exec) bytesToStr(st *State, s *SliceV) *Term {
	C := x.C
	if s.Len.IsConst() && s.Len.Val == 0 {
		return C.Str("")
	}
	if s.Obj == 0 {
		return C.Str("")
	}
	o := st.get(s.Obj)
	var arr *Term
	switch a := o.V.(type) {
	case *SymArr:
		arr = a.Leaves[0]
	case *ArrayV:
		if s.Off.IsConst() && s.Len.IsConst() {
			lit := make([]byte, 0, s.Len.Val)
			ok := true
			for i := uint64(0); i < s.Len.Val; i++ {
				e := a.E[s.Off.Val+i].(*Term)
				if !e.IsConst() {
					ok = false
					break
				}
				lit = append(lit, byte(e.Val))
			}
			if ok {
				return C.Str(string(lit))
			}
		}
		arr = x.arrTerm(a, C.BV(8))
	default:
		panic(unsupported("string of %T", o.V))
	}
	off := s.Off
peel:
	for {
		switch {
		case arr.Op == OAStore && arr.Args[1].IsConst() && off.IsConst() && arr.Args[1].Val < off.Val && off.Val < 1<<31:
			arr = arr.Args[0]
		case arr.Op == OACopy && arr.Args[1] == off && x.holdsFor(st, C.Ule(s.Len, arr.Args[4])):
			off, arr = arr.Args[3], arr.Args[2]
		default:
			break peel
		}
	}
	// bytes of a string, unchanged
	if arr.Op == OALam {
		str := arr.Args[0]
		if off.IsConst() && off.Val == 0 && x.holdsFor(st, C.Eq(s.Len, C.StrLen(str))) {
			return str
		}
		return C.StrSub(str, off, C.Add(off, s.Len))
	}
	if s.Len.IsConst() && off.IsConst() && s.Len.Val <= 64 {
		var lit []byte
		for i := uint64(0); i < s.Len.Val; i++ {
			e := C.Select(arr, C.Const(off.Val+i, 64))
			if !e.IsConst() {
				break
			}
			lit = append(lit, byte(e.Val))
		}
		if uint64(len(lit)) == s.Len.Val {
			return C.Str(string(lit))
		}
	}
	s = &SliceV{Obj: s.Obj, Off: off, Len: s.Len, Cap: s.Cap, Elem: s.Elem}
	x.C.b2s(arr)
	return C.App(fmt.Sprintf("b2s#%d", arr.ID), C.StrS, s.Off, s.Len)
}

// arrTerm views a small concrete array as an array term.
func (x *Exec) arrTerm(a *ArrayV, es *Sort) *Term {
	C := x.C
	var z *Term
	if es.Kind == SBV {
		z = C.Const(0, es.Width)
	} else if es.Kind == SBool {
		z = C.False
	} else {
		z = C.Var("zero!"+es.Name, es)
	}
	r := C.AConst(C.Arr(C.BV(64), es), z)
	for i, e := range a.E {
		r = C.AStore(r, C.Const(uint64(i), 64), e.(*Term))
	}
	return r
}

func (x *Exec) strToBytes(st *State, s *Term, elem types.Type) *SliceV {
	C := x.C
	n := C.StrLen(s)
	if l, ok := C.StrLit(s); ok && len(l) <= 64 {
		av := &ArrayV{}
		for i := 0; i < len(l); i++ {
			av.E = append(av.E, C.Const(uint64(l[i]), 8))
		}
		id := x.newObj(st, types.NewSlice(elem), av, "bytes")
		return &SliceV{Obj: id, Off: C.Const(0, 64), Len: n, Cap: n, Elem: elem}
	}
	arr := C.mk(&Term{Op: OALam, Sort: C.Arr(C.BV(64), C.BV(8)), Args: []*Term{s}, Name: "strbytes"})
	id := x.newObj(st, types.NewSlice(elem), &SymArr{Elem: elem, Leaves: []*Term{arr}, N: n}, "bytes")
	return &SliceV{Obj: id, Off: C.Const(0, 64), Len: n, Cap: n, Elem: elem}
}
