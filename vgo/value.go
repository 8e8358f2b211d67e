package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type StructV struct{ F []Val }
type ArrayV struct{ E []Val }
type TupleV struct{ E []Val }

// PathEl is a field (Fld >= 0) or an index.
type PathEl struct {
	Fld int
	Idx *Term
}

// PtrV points into heap object Obj; Obj 0 is nil.
type PtrV struct {
	Obj  int
	Path []PathEl
}

// SymPtr is a pointer known only by an opaque reference term; 0 is nil.
type SymPtr struct {
	Ref  *Term
	Elem types.Type
}

type SliceV struct {
	Obj           int
	Off, Len, Cap *Term
	Elem          types.Type
}

// SymSlice is a slice known only by an opaque reference.
type SymSlice struct {
	Ref  *Term
	Elem types.Type
}

type IfaceV struct {
	T types.Type // nil for nil interface
	V Val
}

// SymIface is an interface value known only by reference; 0 is nil.
type SymIface struct{ Ref *Term }

type FuncV struct {
	Fn   *ssa.Function
	Bind []Val
	Recv Val    // bound method receiver
	Mod  string // engine-provided function
	Ext  func(x *Exec, st *State, args []Val) []CallOut
	Sym  *Term // opaque function value
}

type MapV struct{ Obj int }
type ChanV struct{ Obj int }

// heap object contents beyond plain values

type SymArr struct {
	Elem   types.Type
	Leaves []*Term // arrays indexed by BV64, one per leaf of Elem
	N      *Term   // size, may be nil
}

// LamArr is an array whose elements are produced by a harness function.
type LamArr struct {
	Elem types.Type
	Gen  *FuncV
	N    *Term
	memo map[int]Val
	over []lamStore
}
type lamStore struct {
	idx *Term
	v   Val
}

type MapObj struct {
	KT, VT types.Type
	Dom    *Term
	Vals   []*Term
	Len    *Term
	ID     int
}

type IterObj struct {
	Map     Val // *MapObj snapshot is not taken: iteration reads the live map
	MapID   int
	Visited *Term
	Order   *Term // when each visited element was
	Dom     *Term // elements at the start, nil once they changed
	Str     *Term
	Pos     *Term
	Keys    []*Term
}

// ChanObj is a channel as seen without other goroutines: what was sent and not
// yet received, or unknown contents once a loop sent to it.
type ChanObj struct {
	Sent   []Val
	Lost   bool
	Closed bool
}

type Obj struct {
	T    types.Type
	V    Val
	Name string
	Init Val // contents of a region object when it was first seen
}

type pcNode struct {
	t     *Term
	prev  *pcNode
	depth int
}

type State struct {
	heap  map[int]*Obj // own writes
	base  *State       // shared read-only ancestor (globals)
	pc    *pcNode
	trace []string
	// region objects materialised for opaque pointers: type -> list of (ref, obj)
	regions map[string][]regionEnt
	// materialised on some of the merged paths only: may be a known object on others
	weak    map[int]bool
	escaped map[string][]int // type -> object ids boxed into symbolic containers
	ghost   map[string]Val
	regver  map[string]string // version of the unknown contents per type
	invs    []*FuncV
}

type regionEnt struct {
	ref *Term
	obj int
}

func (st *State) clone() *State {
	n := &State{pc: st.pc, base: st.base, trace: st.trace, regver: st.regver, invs: st.invs[:len(st.invs):len(st.invs)]}
	n.heap = make(map[int]*Obj, len(st.heap)+8)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.weak = st.weak
	n.regions = map[string][]regionEnt{}
	for k, v := range st.regions {
		n.regions[k] = v[:len(v):len(v)]
	}
	n.ghost = map[string]Val{}
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	n.escaped = map[string][]int{}
	for k, v := range st.escaped {
		n.escaped[k] = v[:len(v):len(v)]
	}
	return n
}

func (st *State) get(id int) *Obj {
	for s := st; s != nil; s = s.base {
		if o, ok := s.heap[id]; ok {
			return o
		}
	}
	return nil
}

func (st *State) set(id int, v Val) {
	o := st.get(id)
	n := *o
	n.V = v
	st.heap[id] = &n
}

func (st *State) assume(t *Term) {
	if t.Op == OTrue {
		return
	}
	if t.Op == OAnd {
		for _, a := range t.Args {
			st.assume(a)
		}
		return
	}
	d := 1
	if st.pc != nil {
		d = st.pc.depth + 1
	}
	st.pc = &pcNode{t, st.pc, d}
}

func (st *State) pcTerms() []*Term {
	var r []*Term
	for n := st.pc; n != nil; n = n.prev {
		r = append(r, n.t)
	}
	return r
}

func (st *State) pcSince(base *pcNode) []*Term {
	var r []*Term
	for n := st.pc; n != nil && n != base; n = n.prev {
		r = append(r, n.t)
	}
	return r
}

// Types

var opaquePkgs = map[string]bool{"time": true, "github.com/shopspring/decimal": true, "regexp": true, "math/big": true, "net": true, "os": true,
	"crypto/cipher": true, "compress/gzip": true, "compress/flate": true, "io": true, "bufio": true, "strings": true, "reflect": true, "sync": true, "sync/atomic": true,
	"encoding/xml": true, "bytes": true, "hash/crc32": true, "context": true, "log": true, "golang.org/x/text/message": true, "errors": true, "fmt": true, "math/rand": true, "runtime": true, "internal/poll": true, "syscall": true,
	"strconv": true}

func (x *Exec) isOpaque(t types.Type) (string, bool) {
	n, ok := t.(*types.Named)
	if !ok {
		if a, ok2 := t.(*types.Alias); ok2 {
			return x.isOpaque(types.Unalias(a))
		}
		return "", false
	}
	o := n.Obj()
	if o.Pkg() == nil {
		return "", false
	}
	p := o.Pkg().Path()
	if !opaquePkgs[p] {
		return "", false
	}
	if p == "time" && o.Name() == "Timer" || p == "encoding/xml" && (o.Name() == "Name" || o.Name() == "Attr" || o.Name() == "StartElement") {
		return "", false
	}
	switch n.Underlying().(type) {
	case *types.Struct:
		return sanitize(p + "." + o.Name()), true
	}
	return "", false
}

// isBuilder reports strings.Builder, which is represented by its contents.
func isBuilder(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Builder" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "strings"
}

func sanitize(s string) string {
	r := strings.NewReplacer("/", "_", ".", "_", "*", "P", "[", "_", "]", "_", " ", "_", "{", "_", "}", "_", ",", "_", "(", "_", ")", "_", ";", "_", "\"", "_")
	return r.Replace(s)
}

func intInfo(t types.Type) (width int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func floatWidth(t types.Type) (int, bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false
	}
	switch b.Kind() {
	case types.Float32:
		return 32, true
	case types.Float64, types.UntypedFloat:
		return 64, true
	}
	return 0, false
}

// scalarSort gives the term sort of types represented by a single term.
func (x *Exec) scalarSort(t types.Type) *Sort {
	if isBuilder(t) {
		return x.C.StrS
	}
	if n, ok := x.isOpaque(t); ok {
		return x.C.Opaque(n)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.Bool || u.Kind() == types.UntypedBool {
			return x.C.Bool
		}
		if u.Kind() == types.String || u.Kind() == types.UntypedString {
			return x.C.StrS
		}
		if w, _, ok := intInfo(t); ok {
			return x.C.BV(w)
		}
		if w, ok := floatWidth(t); ok {
			return x.C.BV(w)
		}
		if u.Kind() == types.UnsafePointer {
			return x.C.BV(64)
		}
	}
	return nil
}

const boxW = 32

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// leafSorts flattens a type into the sorts of its scalar leaves.
func (x *Exec) leafSorts(t types.Type) []*Sort {
	if s := x.scalarSort(t); s != nil {
		return []*Sort{s}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var r []*Sort
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, x.leafSorts(u.Field(i).Type())...)
		}
		return r
	case *types.Array:
		if isByte(u.Elem()) && u.Len() <= 16 {
			return []*Sort{x.C.BV(8 * int(u.Len()))}
		}
		if u.Len() > 64 {
			panic(unsupported("array leaf too large"))
		}
		var r []*Sort
		for i := int64(0); i < u.Len(); i++ {
			r = append(r, x.leafSorts(u.Elem())...)
		}
		return r
	}
	return []*Sort{x.C.BV(boxW)}
}

type unsup struct{ msg string }

func unsupported(f string, a ...interface{}) unsup {
	if dbgExec != nil {
		fmt.Fprintf(os.Stderr, "unsupported: "+f+"\n", a...)
		for _, fn := range dbgExec.fnStack {
			fmt.Fprintln(os.Stderr, "   ", fn)
		}
	}
	return unsup{fmt.Sprintf(f, a...)}
}

// dbgExec is set when VGO_STACK asks for the calls that led to what is not supported.
var dbgExec *Exec

// flatten turns a value of type t into leaf terms.
func (x *Exec) flatten(st *State, t types.Type, v Val) []*Term {
	if s := x.scalarSort(t); s != nil {
		tv, ok := v.(*Term)
		if !ok {
			panic(unsupported("flatten %v: %T", t, v))
		}
		return []*Term{tv}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := v.(*StructV)
		var r []*Term
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, x.flatten(st, u.Field(i).Type(), sv.F[i])...)
		}
		return r
	case *types.Array:
		av := v.(*ArrayV)
		if isByte(u.Elem()) && u.Len() <= 16 {
			return []*Term{x.packBytes(av)}
		}
		var r []*Term
		for i := range av.E {
			r = append(r, x.flatten(st, u.Elem(), av.E[i])...)
		}
		return r
	}
	return []*Term{x.box(st, t, v)}
}

func (x *Exec) packBytes(av *ArrayV) *Term {
	var r *Term
	for _, e := range av.E {
		b := e.(*Term)
		if r == nil {
			r = b
		} else {
			r = x.C.Concat(r, b)
		}
	}
	if r == nil {
		return x.C.Const(0, 8)
	}
	return r
}

func (x *Exec) unpackBytes(t *Term, n int) *ArrayV {
	av := &ArrayV{E: make([]Val, n)}
	for i := 0; i < n; i++ {
		hi := 8*(n-i) - 1
		av.E[i] = x.C.Extract(t, hi, hi-7)
	}
	return av
}

// unflatten rebuilds a value from leaves, returning the rest.
func (x *Exec) unflatten(st *State, t types.Type, ls []*Term) (Val, []*Term) {
	if s := x.scalarSort(t); s != nil {
		return ls[0], ls[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			var f Val
			f, ls = x.unflatten(st, u.Field(i).Type(), ls)
			sv.F = append(sv.F, f)
		}
		return sv, ls
	case *types.Array:
		if isByte(u.Elem()) && u.Len() <= 16 {
			return x.unpackBytes(ls[0], int(u.Len())), ls[1:]
		}
		av := &ArrayV{}
		for i := int64(0); i < u.Len(); i++ {
			var f Val
			f, ls = x.unflatten(st, u.Elem(), ls)
			av.E = append(av.E, f)
		}
		return av, ls
	}
	return x.unbox(st, t, ls[0]), ls[1:]
}

// box encodes a reference-like value as a term.
func (x *Exec) box(st *State, t types.Type, v Val) *Term {
	switch p := v.(type) {
	case *PtrV:
		if p.Obj == 0 {
			return x.C.Const(0, boxW)
		}
		k := fmt.Sprintf("p%d", p.Obj)
		for _, e := range p.Path {
			if e.Idx != nil {
				k += fmt.Sprintf("[%d]", e.Idx.ID)
			} else {
				k += fmt.Sprintf(".%d", e.Fld)
			}
		}
		id := x.boxID(k, v)
		if pt, ok := t.Underlying().(*types.Pointer); ok && len(p.Path) == 0 {
			tk := pt.Elem().String()
			found := false
			for _, o := range st.escaped[tk] {
				if o == p.Obj {
					found = true
				}
			}
			if !found {
				if st.escaped == nil {
					st.escaped = map[string][]int{}
				}
				st.escaped[tk] = append(st.escaped[tk], p.Obj)
			}
		}
		return x.C.Const(uint64(id), boxW)
	case *SymPtr:
		return p.Ref
	case *SymIface:
		return p.Ref
	case *SymSlice:
		return p.Ref
	case *IfaceV:
		if p.T == nil {
			return x.C.Const(0, boxW)
		}
		// structural key so equal payloads share a box
		k, ok := x.structKey(v)
		if !ok {
			x.boxN++
			k = fmt.Sprintf("anon%d", x.boxN)
		}
		r := x.C.Const(uint64(x.boxID("i"+k, v)), boxW)
		x.boxFacts(st, r, p)
		return r
	case *SliceV:
		if p.Obj == 0 {
			return x.C.Const(0, boxW)
		}
		k := fmt.Sprintf("s%d,%d,%d,%d", p.Obj, p.Off.ID, p.Len.ID, p.Cap.ID)
		r := x.C.Const(uint64(x.boxID(k, v)), boxW)
		if !p.Len.bound {
			x.C.AddAxiom(x.C.Eq(x.C.App("sl.len", x.C.BV(64), r), p.Len))
		}
		return r
	case *MapV:
		if p.Obj == 0 {
			return x.C.Const(0, boxW)
		}
		return x.C.Const(uint64(x.boxID(fmt.Sprintf("m%d", p.Obj), v)), boxW)
	case *FuncV:
		if p.Fn == nil && p.Mod == "" && p.Ext == nil && p.Sym == nil {
			return x.C.Const(0, boxW)
		}
		if p.Sym != nil {
			return p.Sym
		}
		x.boxN++
		return x.C.Const(uint64(x.boxID(fmt.Sprintf("f%d", x.boxN), v)), boxW)
	case *ChanV:
		if p.Obj == 0 {
			return x.C.Const(0, boxW)
		}
		return x.C.Const(uint64(x.boxID(fmt.Sprintf("c%d", p.Obj), v)), boxW)
	}
	panic(unsupported("box %T of %v", v, t))
}

func (x *Exec) structKey(v Val) (string, bool) {
	switch p := v.(type) {
	case *Term:
		return fmt.Sprintf("t%d", p.ID), true
	case *IfaceV:
		if p.T == nil {
			return "nil", true
		}
		k, ok := x.structKey(p.V)
		return p.T.String() + ":" + k, ok
	case *StructV:
		s := "{"
		for _, f := range p.F {
			k, ok := x.structKey(f)
			if !ok {
				return "", false
			}
			s += k + ","
		}
		return s + "}", true
	case *ArrayV:
		s := "["
		for _, f := range p.E {
			k, ok := x.structKey(f)
			if !ok {
				return "", false
			}
			s += k + ","
		}
		return s + "]", true
	case *PtrV:
		s := fmt.Sprintf("p%d", p.Obj)
		for _, e := range p.Path {
			if e.Idx != nil {
				s += fmt.Sprintf("[%d]", e.Idx.ID)
			} else {
				s += fmt.Sprintf(".%d", e.Fld)
			}
		}
		return s, true
	case *SymPtr:
		return fmt.Sprintf("r%d", p.Ref.ID), true
	case *SymIface:
		return fmt.Sprintf("i%d", p.Ref.ID), true
	}
	return "", false
}

// boxFacts states type and payload of a boxed interface value, for references
// that are it on some branches only.
func (x *Exec) boxFacts(st *State, r *Term, p *IfaceV) {
	switch u := p.T.Underlying().(type) {
	case *types.Basic:
	case *types.Array:
		if !isByte(u.Elem()) || u.Len() > 16 {
			return
		}
	default:
		if x.scalarSort(p.T) == nil {
			return
		}
	}
	for i, l := range x.flatten(st, p.T, p.V) {
		if l.bound {
			return
		}
		x.C.AddAxiom(x.C.Eq(x.C.App(fmt.Sprintf("pay.%s.%d", sanitize(p.T.String()), i), l.Sort, r), l))
	}
	x.C.AddAxiom(x.C.Eq(x.C.App("dyntype", x.C.BV(32), r), x.C.Const(x.typeID(p.T), 32)))
}

func (x *Exec) boxID(k string, v Val) int {
	if id, ok := x.boxIdx[k]; ok {
		return id
	}
	x.boxTab = append(x.boxTab, v)
	id := len(x.boxTab) // 1-based
	// ids of known objects live in the upper half so that they never clash
	// with references minted by uninterpreted functions for unknown objects
	x.boxIdx[k] = id
	return id
}

// iteConst is a known object among the branches of a reference.
func iteConst(r *Term) *Term {
	if r.Op == OIte {
		for _, a := range r.Args[1:] {
			if k := iteConst(a); k != nil {
				return k
			}
		}
	}
	if r.IsConst() && r.Val != 0 {
		return r
	}
	return nil
}

func (x *Exec) unbox(st *State, t types.Type, r *Term) Val {
	if !r.IsConst() {
		for n := st.pc; n != nil; n = n.prev {
			if n.t.Op == OEq && (n.t.Args[0] == r && n.t.Args[1].IsConst() || n.t.Args[1] == r && n.t.Args[0].IsConst()) {
				if r = n.t.Args[0]; !r.IsConst() {
					r = n.t.Args[1]
				}
				break
			}
		}
		// branches merged since may all denote the same object
		if k := iteConst(r); k != nil && !r.bound && !x.feasible(st, x.C.Not(x.C.Eq(r, k))) {
			r = k
		}
	}
	if r.IsConst() {
		if r.Val == 0 {
			return x.zero(t)
		}
		if int(r.Val) <= len(x.boxTab) {
			return x.boxTab[r.Val-1]
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return &SymPtr{Ref: r, Elem: u.Elem()}
	case *types.Interface:
		return &SymIface{Ref: r}
	case *types.Slice:
		return &SymSlice{Ref: r, Elem: u.Elem()}
	case *types.Signature:
		return &FuncV{Sym: r}
	}
	panic(unsupported("symbolic reference of type %v", t))
}

func (x *Exec) zero(t types.Type) Val {
	if isBuilder(t) {
		return x.C.Str("")
	}
	if n, ok := x.isOpaque(t); ok {
		return x.C.Var("zero!"+n, x.C.Opaque(n))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.Bool || u.Kind() == types.UntypedBool {
			return x.C.False
		}
		if u.Kind() == types.String || u.Kind() == types.UntypedString {
			return x.C.Str("")
		}
		if w, _, ok := intInfo(t); ok {
			return x.C.Const(0, w)
		}
		if w, ok := floatWidth(t); ok {
			return x.C.Const(0, w)
		}
		if u.Kind() == types.UnsafePointer {
			return x.C.Const(0, 64)
		}
		if u.Kind() == types.UntypedNil {
			return &IfaceV{}
		}
		panic(unsupported("zero of %v", t))
	case *types.Struct:
		sv := &StructV{F: make([]Val, u.NumFields())}
		for i := range sv.F {
			sv.F[i] = x.zero(u.Field(i).Type())
		}
		return sv
	case *types.Array:
		if u.Len() > 4096 {
			panic(unsupported("large array %v", t))
		}
		av := &ArrayV{E: make([]Val, u.Len())}
		for i := range av.E {
			av.E[i] = x.zero(u.Elem())
		}
		return av
	case *types.Pointer:
		return &PtrV{}
	case *types.Slice:
		z := x.C.Const(0, 64)
		return &SliceV{Off: z, Len: z, Cap: z, Elem: u.Elem()}
	case *types.Map:
		return &MapV{}
	case *types.Chan:
		return &ChanV{}
	case *types.Interface:
		return &IfaceV{}
	case *types.Signature:
		return &FuncV{}
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.E = append(tv.E, x.zero(u.At(i).Type()))
		}
		return tv
	}
	panic(unsupported("zero of %v", t))
}

// freshVal makes an arbitrary value of type t. Slices get their own symbolic
// backing array with nothing else pointing to it.
func (x *Exec) freshVal(st *State, name string, t types.Type, depth int) Val {
	if s := x.scalarSort(t); s != nil {
		return x.C.Fresh(name, s)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := &StructV{F: make([]Val, u.NumFields())}
		for i := range sv.F {
			sv.F[i] = x.freshVal(st, name+"."+u.Field(i).Name(), u.Field(i).Type(), depth+1)
		}
		return sv
	case *types.Array:
		if isByte(u.Elem()) && u.Len() <= 16 {
			return x.unpackBytes(x.C.Fresh(name, x.C.BV(8*int(u.Len()))), int(u.Len()))
		}
		av := &ArrayV{E: make([]Val, u.Len())}
		for i := range av.E {
			av.E[i] = x.freshVal(st, fmt.Sprintf("%s[%d]", name, i), u.Elem(), depth+1)
		}
		return av
	case *types.Slice:
		return x.freshSlice(st, name, u.Elem())
	case *types.Pointer:
		return &SymPtr{Ref: x.C.Fresh(name, x.C.BV(boxW)), Elem: u.Elem()}
	case *types.Interface:
		return &SymIface{Ref: x.C.Fresh(name, x.C.BV(boxW))}
	case *types.Map:
		id := x.newObj(st, t, nil, name)
		st.set(id, x.freshMap(st, name, u))
		return &MapV{Obj: id}
	case *types.Signature:
		return &FuncV{Sym: x.C.Fresh(name, x.C.BV(boxW))}
	}
	panic(unsupported("arbitrary value of type %v", t))
}

func (x *Exec) freshMap(st *State, name string, u *types.Map) *MapObj {
	ks := x.keySort(u.Key())
	m := &MapObj{KT: u.Key(), VT: u.Elem()}
	m.Dom = x.C.Fresh(name+".dom", x.C.Arr(ks, x.C.Bool))
	for i, s := range x.leafSorts(u.Elem()) {
		m.Vals = append(m.Vals, x.C.Fresh(fmt.Sprintf("%s.val%d", name, i), x.C.Arr(ks, s)))
	}
	m.Len = x.C.Fresh(name+".len", x.C.BV(64))
	st.assume(x.C.Ult(m.Len, x.C.Const(1<<31, 64)))
	return m
}

const maxLen = 1 << 31

func (x *Exec) freshSlice(st *State, name string, elem types.Type) *SliceV {
	n := x.C.Fresh(name+".len", x.C.BV(64))
	cp := x.C.Fresh(name+".cap", x.C.BV(64))
	st.assume(x.C.Ult(n, x.C.Const(maxLen, 64)))
	st.assume(x.C.Ule(n, cp))
	st.assume(x.C.Ult(cp, x.C.Const(maxLen, 64)))
	arr := &SymArr{Elem: elem, N: cp}
	for i, s := range x.leafSorts(elem) {
		arr.Leaves = append(arr.Leaves, x.C.Fresh(fmt.Sprintf("%s.e%d", name, i), x.C.Arr(x.C.BV(64), s)))
	}
	id := x.newObj(st, types.NewSlice(elem), arr, name)
	return &SliceV{Obj: id, Off: x.C.Const(0, 64), Len: n, Cap: cp, Elem: elem}
}

func (x *Exec) newObj(st *State, t types.Type, v Val, name string) int {
	x.objN++
	id := x.objN
	st.heap[id] = &Obj{T: t, V: v, Name: name}
	return id
}

// keySort is the single-term sort used for map keys of type t.
func (x *Exec) keySort(t types.Type) *Sort {
	ls := x.leafSorts(t)
	if len(ls) == 1 {
		return ls[0]
	}
	w := 0
	for _, s := range ls {
		if s.Kind != SBV {
			panic(unsupported("map key type %v", t))
		}
		w += s.Width
	}
	return x.C.BV(w)
}

func (x *Exec) keyTerm(st *State, t types.Type, v Val) *Term {
	ls := x.flatten(st, t, v)
	r := ls[0]
	for _, l := range ls[1:] {
		r = x.C.Concat(r, l)
	}
	return r
}

func (x *Exec) keyVal(st *State, t types.Type, k *Term) Val {
	ls := x.leafSorts(t)
	if len(ls) == 1 {
		v, _ := x.unflatten(st, t, []*Term{k})
		return v
	}
	var ts []*Term
	hi := k.Sort.Width
	for _, s := range ls {
		ts = append(ts, x.C.Extract(k, hi-1, hi-s.Width))
		hi -= s.Width
	}
	v, _ := x.unflatten(st, t, ts)
	return v
}

// valEq builds equality of two values of type t as in Go's ==.
func (x *Exec) valEq(st *State, t types.Type, a, b Val) *Term {
	C := x.C
	if _, ok := floatWidth(t); ok {
		return x.fcmp("==", a.(*Term), b.(*Term))
	}
	if s := x.scalarSort(t); s != nil {
		return C.Eq(a.(*Term), b.(*Term))
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sa, sb := a.(*StructV), b.(*StructV)
		r := C.True
		for i := 0; i < u.NumFields(); i++ {
			r = C.And(r, x.valEq(st, u.Field(i).Type(), sa.F[i], sb.F[i]))
		}
		return r
	case *types.Array:
		sa, sb := a.(*ArrayV), b.(*ArrayV)
		if isByte(u.Elem()) && u.Len() <= 16 && u.Len() > 0 {
			return C.Eq(x.packBytes(sa), x.packBytes(sb))
		}
		r := C.True
		for i := range sa.E {
			r = C.And(r, x.valEq(st, u.Elem(), sa.E[i], sb.E[i]))
		}
		return r
	case *types.Pointer:
		return x.ptrEq(st, t, a, b)
	case *types.Interface:
		return x.ifaceEq(st, a, b)
	case *types.Slice:
		// only comparison with nil is legal
		return x.C.Or(x.C.And(x.isNil(a), x.isNil(b)))
	case *types.Map, *types.Chan, *types.Signature:
		na, nb := x.isNil(a), x.isNil(b)
		if nb == C.True {
			return na
		}
		if na == C.True {
			return nb
		}
		if ca, ok := a.(*ChanV); ok {
			return C.BoolC(ca.Obj == b.(*ChanV).Obj)
		}
	}
	panic(unsupported("equality on %v", t))
}

func (x *Exec) isNil(v Val) *Term {
	C := x.C
	switch p := v.(type) {
	case *PtrV:
		return C.BoolC(p.Obj == 0)
	case *SymPtr:
		return C.Eq(p.Ref, C.Const(0, boxW))
	case *SliceV:
		return C.BoolC(p.Obj == 0)
	case *SymSlice:
		return C.Eq(p.Ref, C.Const(0, boxW))
	case *IfaceV:
		return C.BoolC(p.T == nil)
	case *SymIface:
		return C.Eq(p.Ref, C.Const(0, boxW))
	case *MapV:
		return C.BoolC(p.Obj == 0)
	case *ChanV:
		return C.BoolC(p.Obj == 0)
	case *FuncV:
		if p.Sym != nil {
			return C.Eq(p.Sym, C.Const(0, boxW))
		}
		return C.BoolC(p.Fn == nil && p.Mod == "" && p.Ext == nil)
	}
	panic(unsupported("nil test on %T", v))
}

func (x *Exec) ptrEq(st *State, t types.Type, a, b Val) *Term {
	C := x.C
	pa, oka := a.(*PtrV)
	pb, okb := b.(*PtrV)
	if oka && okb {
		if pa.Obj != pb.Obj {
			return C.False
		}
		if len(pa.Path) != len(pb.Path) {
			return C.False
		}
		r := C.True
		for i := range pa.Path {
			ea, eb := pa.Path[i], pb.Path[i]
			if (ea.Idx == nil) != (eb.Idx == nil) {
				return C.False
			}
			if ea.Idx == nil {
				if ea.Fld != eb.Fld {
					return C.False
				}
			} else {
				r = C.And(r, C.Eq(ea.Idx, eb.Idx))
			}
		}
		return r
	}
	return C.Eq(x.box(st, t, a), x.box(st, t, b))
}

func (x *Exec) ifaceEq(st *State, a, b Val) *Term {
	C := x.C
	if x.isNil(b) == C.True {
		return x.isNil(a)
	}
	if x.isNil(a) == C.True {
		return x.isNil(b)
	}
	ia, oka := a.(*IfaceV)
	ib, okb := b.(*IfaceV)
	if oka && okb {
		if !types.Identical(ia.T, ib.T) {
			return C.False
		}
		return x.valEq(st, ia.T, ia.V, ib.V)
	}
	sa, oka := a.(*SymIface)
	sb, okb := b.(*SymIface)
	if oka && okb {
		return C.Eq(sa.Ref, sb.Ref)
	}
	return C.Fresh("ifeq", C.Bool)
}
