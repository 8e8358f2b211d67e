package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type invokeV struct {
	recv   Val
	method *types.Func
	iface  types.Type
}

func (x *Exec) prepCall(st *State, fr *Frame, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(st, fr, a))
	}
	if c.IsInvoke() {
		return &invokeV{recv: x.val(st, fr, c.Value), method: c.Method, iface: c.Value.Type()}, args
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b, args
	}
	return x.val(st, fr, c.Value), args
}

func (x *Exec) execCall(st *State, fr *Frame, c *ssa.CallCommon, in ssa.Instruction) []CallOut {
	fn, args := x.prepCall(st, fr, c)
	return x.callValue(st, fn, args, c, in)
}

func (x *Exec) callValue(st *State, fv Val, args []Val, c *ssa.CallCommon, in ssa.Instruction) []CallOut {
	switch f := fv.(type) {
	case *ssa.Builtin:
		return x.builtin(st, f.Name(), args, c, in)
	case *FuncV:
		if f.Ext != nil {
			return f.Ext(x, st, args)
		}
		if f.Sym != nil {
			// a call of an unknown function value: nil check, then arbitrary result
			cont, outs := x.check(st, x.C.Not(x.C.Eq(f.Sym, x.C.Const(0, boxW))), "nil", "call of nil function", in)
			if cont {
				panic(unsupported("call of an unknown function value"))
			}
			return outs
		}
		if f.Fn == nil {
			_, outs := x.check(st, x.C.False, "nil", "call of nil function", in)
			return outs
		}
		if f.Recv != nil {
			args = append([]Val{f.Recv}, args...)
		}
		return x.callFn(st, f.Fn, args, f.Bind, c, in)
	case *invokeV:
		return x.invoke(st, f, args, c, in)
	}
	panic(unsupported("call of %T", fv))
}

func (x *Exec) invoke(st *State, f *invokeV, args []Val, c *ssa.CallCommon, in ssa.Instruction) []CallOut {
	switch r := f.recv.(type) {
	case *IfaceV:
		if r.T == nil {
			_, outs := x.check(st, x.C.False, "nil", "method call on nil interface", in)
			return outs
		}
		m := x.Prog.LookupMethod(r.T, f.method.Pkg(), f.method.Name())
		if m == nil {
			panic(unsupported("method %s of %v not found", f.method.Name(), r.T))
		}
		return x.callFn(st, m, append([]Val{r.V}, args...), nil, c, in)
	case *SymIface:
		cont, outs := x.check(st, x.C.Not(x.C.Eq(r.Ref, x.C.Const(0, boxW))), "nil", "method call on nil interface", in)
		if !cont {
			return outs
		}
		sig := f.method.Type().(*types.Signature)
		name := "dyn." + f.iface.String() + "." + f.method.Name()
		x.Trusted["interface method "+f.iface.String()+"."+f.method.Name()+" on an unknown value (pure function of it)"] = true
		ts := []*Term{r.Ref}
		for i, a := range args {
			n, t := x.encode(st, a, sig.Params().At(i).Type())
			name += n
			ts = append(ts, t...)
		}
		v := x.ufResult(st, name, sig.Results(), ts)
		return append(outs, CallOut{st: st, ret: v})
	}
	panic(unsupported("invoke on %T", f.recv))
}

func fnName(fn *ssa.Function) string {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	return o.RelString(nil)
}

func (x *Exec) callFn(st *State, fn *ssa.Function, args []Val, bind []Val, c *ssa.CallCommon, in ssa.Instruction) []CallOut {
	name := fnName(fn)
	short := fn.Name()
	if fn.Origin() != nil {
		short = fn.Origin().Name()
	}
	if strings.HasPrefix(short, "vp") {
		if m, ok := vpIntrinsics[short]; ok {
			return m(x, st, fn, args, in)
		}
	}
	if s, ok := x.summaries[name]; ok && x.fnUnderProof != fn {
		x.used[name] = true
		return x.Call(st, s, args, bind)
	}
	if m, ok := models[name]; ok {
		x.Trusted["model of "+name] = true
		return m(x, st, fn, args, in)
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	} else if fn.Parent() != nil {
		p := fn
		for p.Parent() != nil {
			p = p.Parent()
		}
		if p.Pkg != nil {
			pkg = p.Pkg.Pkg.Path()
		} else if p.Origin() != nil && p.Origin().Pkg != nil {
			pkg = p.Origin().Pkg.Pkg.Path()
		}
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		pkg = fn.Origin().Pkg.Pkg.Path()
	}
	if pkg == "" && fn.Blocks != nil {
		return x.Call(st, fn, args, bind) // wrappers, thunks
	}
	if x.L.inRepo(pkg) {
		if x.lenient && x.L.skipInit(fn) {
			return one(st, nil)
		}
		x.ensureBuilt(fn)
		if fn.Blocks != nil {
			return x.Call(st, fn, args, bind)
		}
	}
	if fn.Synthetic != "" && fn.Blocks != nil && pkg == "" {
		return x.Call(st, fn, args, bind)
	}
	if inlinePkgs[pkg] || inlineFns[name] {
		x.ensureBuilt(fn)
		if fn.Blocks != nil {
			x.Assume["library inlined from its source: "+pkg] = true
			return x.Call(st, fn, args, bind)
		}
	}
	if x.lenient && fn.Name() == "init" {
		return one(st, nil)
	}
	if recv := fn.Signature.Recv(); recv != nil && !x.lenient {
		// a method that may change its receiver is not a function of its arguments
		if p, ok := recv.Type().(*types.Pointer); ok && mutableOpaque[types.TypeString(p.Elem(), nil)] {
			panic(unsupported("call of %s (no contract)", name))
		}
	}
	if pureUF(pkg, name) || x.lenient {
		return x.ufCall(st, fn, args)
	}
	panic(unsupported("call of %s (no contract)", name))
}

func (x *Exec) ensureBuilt(fn *ssa.Function) {
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil {
		x.L.build(f.Pkg)
	}
}

var inlinePkgs = map[string]bool{"github.com/tevino/abool/v2": true, "encoding/binary": true, "math/bits": true, "slices": true, "cmp": true, "internal/byteorder": true,
	"github.com/antlr/antlr4/runtime/Go/antlr": true}
var inlineFns = map[string]bool{
	"math.Float32frombits": false,
}

var ufPkgs = map[string]bool{"strings": true, "strconv": true, "time": true, "math": true, "fmt": true, "regexp": true, "unicode": true, "unicode/utf8": true,
	"github.com/shopspring/decimal": true, "github.com/araddon/dateparse": true, "github.com/google/uuid": true, "errors": true, "bytes": true, "net": true, "path/filepath": true}

var mutableOpaque = map[string]bool{"strings.Builder": true, "bytes.Buffer": true, "strings.Reader": true, "bytes.Reader": true, "time.Time": true,
	"github.com/shopspring/decimal.Decimal": true, "math/big.Int": true, "github.com/google/uuid.UUID": true}

func pureUF(pkg, name string) bool {
	if name == "time.Now" || name == "time.Sleep" {
		return false
	}
	return ufPkgs[pkg]
}

// encode renders an argument for an uninterpreted function: a name suffix
// describing its shape and the terms it consists of.
func (x *Exec) encode(st *State, v Val, t types.Type) (string, []*Term) {
	switch p := v.(type) {
	case *Term:
		return "", []*Term{p}
	case *StructV:
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			panic(unsupported("encode struct"))
		}
		n := "{"
		var ts []*Term
		for i, f := range p.F {
			a, b := x.encode(st, f, u.Field(i).Type())
			n += a
			ts = append(ts, b...)
		}
		return n + "}", ts
	case *ArrayV:
		if len(p.E) <= 16 && len(p.E) > 0 {
			if at, ok := t.Underlying().(*types.Array); ok && isByte(at.Elem()) {
				return fmt.Sprintf("[%d]", len(p.E)), []*Term{x.packBytes(p)}
			}
		}
		n := fmt.Sprintf("[%d", len(p.E))
		var ts []*Term
		et := elemType(t)
		for _, f := range p.E {
			a, b := x.encode(st, f, et)
			n += a
			ts = append(ts, b...)
		}
		return n + "]", ts
	case *PtrV:
		if p.Obj == 0 {
			return "&nil", nil
		}
		outs := x.load(st, p, nil)
		if len(outs) != 1 {
			panic(unsupported("encode pointer"))
		}
		a, b := x.encode(st, outs[0].ret, t.Underlying().(*types.Pointer).Elem())
		return "&" + a, b
	case *SymPtr:
		return "&r", []*Term{p.Ref}
	case *SymIface:
		return "i", []*Term{p.Ref}
	case *SymSlice:
		return "s", []*Term{p.Ref}
	case *IfaceV:
		if p.T == nil {
			return "<nil>", nil
		}
		a, b := x.encode(st, p.V, p.T)
		return "<" + p.T.String() + a + ">", b
	case *FuncV:
		if p.Fn != nil {
			n := "f:" + p.Fn.String()
			return n, nil
		}
		return "f", nil
	case *SliceV:
		if p.Obj == 0 {
			return "s0", nil
		}
		o := st.get(p.Obj)
		switch a := o.V.(type) {
		case *ArrayV:
			if p.Off.IsConst() && p.Len.IsConst() {
				n := fmt.Sprintf("s%d(", p.Len.Val)
				var ts []*Term
				for i := uint64(0); i < p.Len.Val; i++ {
					q, b := x.encode(st, a.E[p.Off.Val+i], p.Elem)
					n += q + ","
					ts = append(ts, b...)
				}
				return n + ")", ts
			}
		case *SymArr:
			n := "S"
			for _, l := range a.Leaves {
				n += fmt.Sprintf("#%d", l.ID)
			}
			return n, []*Term{p.Off, p.Len}
		}
	}
	panic(unsupported("encode %T", v))
}

func (x *Exec) ufCall(st *State, fn *ssa.Function, args []Val) []CallOut {
	name := fnName(fn)
	x.Trusted["pure function "+name] = true
	n := name
	var ts []*Term
	for i, a := range args {
		s, t := x.encode(st, a, paramType(fn, i))
		n += s
		ts = append(ts, t...)
	}
	r := x.ufResult(st, n, fn.Signature.Results(), ts)
	if strings.HasPrefix(name, "strconv.") {
		// no formatted number or boolean is longer than this
		if t, ok := r.(*Term); ok && t.Sort == x.C.StrS && !t.bound {
			l := x.C.StrLen(t)
			x.C.AddAxiom(x.C.And(x.C.Ult(l, x.C.Const(4096, 64)), x.C.Ult(x.C.Const(0, 64), l)))
		}
	}
	return one(st, r)
}

func (x *Exec) ufResult(st *State, n string, res *types.Tuple, ts []*Term) Val {
	// argument sorts are part of the name so that one symbol has one signature
	for _, t := range ts {
		n += "'" + t.Sort.String()
	}
	mk := func(i int, t types.Type) Val {
		var ls []*Term
		for j, s := range x.leafSorts(t) {
			ls = append(ls, x.C.App(fmt.Sprintf("%s/%d.%d", n, i, j), s, ts...))
		}
		v, _ := x.unflatten(st, t, ls)
		if _, ok := t.Underlying().(*types.Pointer); ok {
			for _, l := range ls {
				if !l.bound {
					x.C.AddAxiom(x.C.Ule(x.C.Const(1<<30, boxW), l))
				}
			}
		}
		return v
	}
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return mk(0, res.At(0).Type())
	}
	tv := &TupleV{}
	for i := 0; i < res.Len(); i++ {
		tv.E = append(tv.E, mk(i, res.At(i).Type()))
	}
	return tv
}

// newError is a fresh non-nil error value determined by its text.
func (x *Exec) newError(st *State, name string, ts []*Term) Val {
	r := x.C.App("err:"+name, x.C.BV(boxW), ts...)
	x.C.AddAxiom(x.C.Ule(x.C.Const(1<<30, boxW), r))
	return &SymIface{Ref: r}
}

func (x *Exec) builtin(st *State, name string, args []Val, c *ssa.CallCommon, in ssa.Instruction) []CallOut {
	C := x.C
	switch name {
	case "len":
		switch p := args[0].(type) {
		case *SliceV:
			return one(st, p.Len)
		case *SymSlice:
			return one(st, x.materSlice(st, p).Len)
		case *Term:
			return one(st, C.StrLen(p))
		case *MapV:
			if p.Obj == 0 {
				return one(st, C.Const(0, 64))
			}
			return one(st, st.get(p.Obj).V.(*MapObj).Len)
		case *ArrayV:
			return one(st, C.Const(uint64(len(p.E)), 64))
		case *PtrV:
			at := c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return one(st, C.Const(uint64(at.Len()), 64))
		}
	case "cap":
		switch p := args[0].(type) {
		case *SliceV:
			return one(st, p.Cap)
		case *SymSlice:
			return one(st, x.materSlice(st, p).Cap)
		}
	case "append":
		return x.appendOp(st, args, in)
	case "copy":
		return x.copyOp(st, args, in)
	case "delete":
		m := args[0].(*MapV)
		if m.Obj != 0 {
			mo := st.get(m.Obj).V.(*MapObj)
			x.mapDelete(st, m, x.keyTerm(st, mo.KT, args[1]))
		}
		return one(st, nil)
	case "print", "println":
		return one(st, nil)
	case "close":
		c := args[0].(*ChanV)
		cont, outs := x.check(st, C.BoolC(c.Obj != 0), "nil", "close of nil channel", in)
		if !cont {
			return outs
		}
		co := *(st.get(c.Obj).V.(*ChanObj))
		cont, outs = x.check(st, C.BoolC(!co.Closed), "close", "close of closed channel", in)
		if !cont {
			return outs
		}
		co.Closed = true
		st.set(c.Obj, &co)
		return append(outs, CallOut{st: st})
	case "panic":
		return []CallOut{{st: st, p: &panicInfo{msg: "explicit panic", kind: "panic", where: x.where(in)}}}
	case "recover":
		if p, ok := st.ghost["panicking"]; ok {
			_ = p
			delete(st.ghost, "panicking")
			st.ghost["recovered"] = true
			r := C.Fresh("recovered", C.BV(boxW))
			st.assume(C.Not(C.Eq(r, C.Const(0, boxW))))
			return one(st, &SymIface{Ref: r})
		}
		return one(st, &IfaceV{})
	case "min", "max":
		t := c.Args[0].Type()
		_, signed, ok := intInfo(t)
		if !ok {
			break
		}
		r := args[0].(*Term)
		for _, a := range args[1:] {
			b := a.(*Term)
			var lt *Term
			if signed {
				lt = C.Slt(b, r)
			} else {
				lt = C.Ult(b, r)
			}
			if name == "max" {
				if signed {
					lt = C.Slt(r, b)
				} else {
					lt = C.Ult(r, b)
				}
			}
			r = C.Ite(lt, b, r)
		}
		return one(st, r)
	case "clear":
		if m, ok := args[0].(*MapV); ok {
			if m.Obj != 0 {
				mo := st.get(m.Obj).V.(*MapObj)
				st.set(m.Obj, x.emptyMap(types.NewMap(mo.KT, mo.VT)))
			}
			return one(st, nil)
		}
	case "ssa:wrapnilchk":
		return x.withPtr(st, args[0], in, func(st *State, p *PtrV) []CallOut { return one(st, p) })
	}
	panic(unsupported("builtin %s on %T", name, args[0]))
}

// toSymArr converts the backing object of a slice to array terms.
func (x *Exec) arrLeaves(st *State, s *SliceV) []*Term {
	ls := x.leafSorts(s.Elem)
	if s.Obj == 0 {
		var r []*Term
		zl := x.flatten(st, s.Elem, x.zero(s.Elem))
		for i, so := range ls {
			r = append(r, x.C.AConst(x.C.Arr(x.C.BV(64), so), zl[i]))
		}
		return r
	}
	switch a := st.get(s.Obj).V.(type) {
	case *SymArr:
		return a.Leaves
	case *ArrayV:
		zl := x.flatten(st, s.Elem, x.zero(s.Elem))
		r := make([]*Term, len(ls))
		for i, so := range ls {
			r[i] = x.C.AConst(x.C.Arr(x.C.BV(64), so), zl[i])
		}
		for k, e := range a.E {
			fl := x.flatten(st, s.Elem, e)
			for i := range r {
				r[i] = x.C.AStore(r[i], x.C.Const(uint64(k), 64), fl[i])
			}
		}
		return r
	}
	panic(unsupported("array of %T", st.get(s.Obj).V))
}

func (x *Exec) appendOp(st *State, args []Val, in ssa.Instruction) []CallOut {
	C := x.C
	a := x.asSlice(st, args[0])
	var b *SliceV
	if s, ok := args[1].(*Term); ok {
		b = x.strToBytes(st, s, a.Elem)
	} else {
		b = x.asSlice(st, args[1])
	}
	if b.Len.IsConst() && b.Len.Val == 0 {
		return one(st, a)
	}
	x.Assume["the result of append is treated as a fresh array (no write through spare capacity shared with another slice)"] = true
	z := C.Const(0, 64)
	// both concrete: element list
	ea, oka := x.elems(st, a)
	eb, okb := x.elems(st, b)
	if oka && okb && len(ea)+len(eb) <= 256 {
		av := &ArrayV{E: append(append([]Val(nil), ea...), eb...)}
		id := x.newObj(st, types.NewSlice(a.Elem), av, "append")
		n := C.Const(uint64(len(av.E)), 64)
		return one(st, &SliceV{Obj: id, Off: z, Len: n, Cap: n, Elem: a.Elem})
	}
	la := x.arrLeaves(st, a)
	n := C.Add(a.Len, b.Len)
	arr := &SymArr{Elem: a.Elem, N: n}
	off := a.Off
	if okb {
		// keep the array and offset of the left operand, store the new elements
		arr.Leaves = append(arr.Leaves, la...)
		for k, e := range eb {
			fl := x.flatten(st, a.Elem, e)
			pos := C.Add(C.Add(off, a.Len), C.Const(uint64(k), 64))
			for i := range arr.Leaves {
				arr.Leaves[i] = C.AStore(arr.Leaves[i], pos, fl[i])
			}
		}
	} else {
		lb := x.arrLeaves(st, b)
		for i := range la {
			arr.Leaves = append(arr.Leaves, C.ACopy(la[i], C.Add(off, a.Len), lb[i], b.Off, b.Len))
		}
	}
	st.assume(C.Ult(n, C.Const(1<<33, 64)))
	id := x.newObj(st, types.NewSlice(a.Elem), arr, "append")
	return one(st, &SliceV{Obj: id, Off: off, Len: n, Cap: n, Elem: a.Elem})
}

// elems lists the elements of a slice whose extent is constant.
func (x *Exec) elems(st *State, s *SliceV) ([]Val, bool) {
	if !s.Len.IsConst() || s.Len.Val > 300 {
		return nil, false
	}
	if s.Len.Val == 0 {
		return nil, true
	}
	var r []Val
	switch a := st.get(s.Obj).V.(type) {
	case *ArrayV:
		if !s.Off.IsConst() {
			return nil, false
		}
		for i := uint64(0); i < s.Len.Val; i++ {
			r = append(r, a.E[s.Off.Val+i])
		}
		return r, true
	case *SymArr:
		for i := uint64(0); i < s.Len.Val; i++ {
			var ls []*Term
			for _, l := range a.Leaves {
				ls = append(ls, x.C.Select(l, x.C.Add(s.Off, x.C.Const(i, 64))))
			}
			v, _ := x.unflatten(st, a.Elem, ls)
			r = append(r, v)
		}
		return r, true
	}
	return nil, false
}

func (x *Exec) copyOp(st *State, args []Val, in ssa.Instruction) []CallOut {
	C := x.C
	d := x.asSlice(st, args[0])
	var s *SliceV
	if t, ok := args[1].(*Term); ok {
		s = x.strToBytes(st, t, d.Elem)
	} else {
		s = x.asSlice(st, args[1])
	}
	n := C.Ite(C.Slt(d.Len, s.Len), d.Len, s.Len)
	if !n.IsConst() {
		if x.entails(st, C.Eq(n, d.Len)) {
			n = d.Len
		} else if x.entails(st, C.Eq(n, s.Len)) {
			n = s.Len
		}
	}
	if n.IsConst() && n.Val == 0 || d.Obj == 0 || s.Obj == 0 {
		return one(st, C.Const(0, 64))
	}
	o := st.get(d.Obj)
	x.writable(st, d.Obj)
	if av, ok := o.V.(*ArrayV); ok && d.Off.IsConst() && n.IsConst() {
		src := *s
		src.Len = n
		es, ok := x.elems(st, &src)
		if ok {
			nv := &ArrayV{E: append([]Val(nil), av.E...)}
			for i, e := range es {
				nv.E[int(d.Off.Val)+i] = e
			}
			st.set(d.Obj, nv)
			return one(st, n)
		}
	}
	if av, ok := o.V.(*ArrayV); ok && d.Off.IsConst() {
		// symbolic count into a small array: element by element
		la := x.arrLeaves(st, s)
		nv := &ArrayV{E: append([]Val(nil), av.E...)}
		m := &merger{x: x, a: st, b: st, pa: map[int]int{}, pb: map[int]int{}}
		for i := int(d.Off.Val); i < len(nv.E); i++ {
			k := C.Const(uint64(i)-d.Off.Val, 64)
			var ls []*Term
			for _, l := range la {
				ls = append(ls, C.Select(l, C.Add(s.Off, k)))
			}
			v, _ := x.unflatten(st, d.Elem, ls)
			m.g = C.Ult(k, n)
			nv.E[i] = m.merge(v, nv.E[i])
		}
		st.set(d.Obj, nv)
		return one(st, n)
	}
	ld := x.arrLeaves(st, d)
	lsrc := x.arrLeaves(st, s)
	arr := &SymArr{Elem: d.Elem}
	if sa, ok := o.V.(*SymArr); ok {
		arr.N = sa.N
	}
	for i := range ld {
		arr.Leaves = append(arr.Leaves, C.ACopy(ld[i], d.Off, lsrc[i], s.Off, n))
	}
	st.set(d.Obj, arr)
	return one(st, n)
}

// paramType is the type of the i-th argument, the receiver counting first.
func paramType(fn *ssa.Function, i int) types.Type {
	sig := fn.Signature
	if r := sig.Recv(); r != nil {
		if i == 0 {
			return r.Type()
		}
		i--
	}
	return sig.Params().At(i).Type()
}
