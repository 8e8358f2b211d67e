package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// Terms are hash-consed SMT terms over booleans, bit-vectors of exact machine
// width, and uninterpreted sorts. Arrays never reach the solver: reads are
// resolved against stores when the read is built, and a read of an unknown
// array is an application of an uninterpreted function.

type SortKind int

const (
	SBool SortKind = iota
	SBV
	SOpaque
	SArr
)

type Sort struct {
	Kind  SortKind
	Width int
	Name  string
	Key   *Sort
	Elem  *Sort
}

func (s *Sort) String() string {
	switch s.Kind {
	case SBool:
		return "Bool"
	case SBV:
		return "(_ BitVec " + strconv.Itoa(s.Width) + ")"
	case SOpaque:
		return s.Name
	}
	return "Arr"
}

type Op int

const (
	OConst Op = iota // bit-vector constant
	OTrue
	OFalse
	OVar
	OApp // uninterpreted function
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract
	OZext
	OSext
	OForall
	OABase
	OAStore
	OACopy
	OAConst
	OALam // named family of functions of an index, used for strings viewed as bytes
)

type Term struct {
	ID   int
	Op   Op
	Args []*Term
	Sort *Sort
	Val  uint64
	Name string
	I, J int
	// bound is true when a quantified variable occurs in the term
	bound bool
}

type Ctx struct {
	tab    map[string]*Term
	n      int
	sorts  map[string]*Sort
	Axioms []*Term
	axSeen map[int]bool
	funs   map[string]*FunDecl
	fresh  int
	strs   map[string]*Term
	strOf  map[int]string
	True   *Term
	False  *Term
	Bool   *Sort
	StrS   *Sort
	b2sArr map[string]*Term // array behind each bytes-to-string function
}

type FunDecl struct {
	Name string
	Args []*Sort
	Ret  *Sort
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, sorts: map[string]*Sort{}, funs: map[string]*FunDecl{}, strs: map[string]*Term{}, strOf: map[int]string{}, axSeen: map[int]bool{}}
	c.Bool = &Sort{Kind: SBool}
	c.StrS = c.Opaque("Str")
	c.True = c.mk(&Term{Op: OTrue, Sort: c.Bool})
	c.False = c.mk(&Term{Op: OFalse, Sort: c.Bool})
	return c
}

func (c *Ctx) BV(w int) *Sort {
	k := "bv" + strconv.Itoa(w)
	if s, ok := c.sorts[k]; ok {
		return s
	}
	s := &Sort{Kind: SBV, Width: w}
	c.sorts[k] = s
	return s
}

func (c *Ctx) Opaque(n string) *Sort {
	k := "op" + n
	if s, ok := c.sorts[k]; ok {
		return s
	}
	s := &Sort{Kind: SOpaque, Name: n}
	c.sorts[k] = s
	return s
}

func (c *Ctx) Arr(key, elem *Sort) *Sort {
	k := "arr" + key.String() + "->" + elem.String()
	if s, ok := c.sorts[k]; ok {
		return s
	}
	s := &Sort{Kind: SArr, Key: key, Elem: elem}
	c.sorts[k] = s
	return s
}

func (c *Ctx) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(t.Op)))
	sb.WriteByte('|')
	if t.Sort.Kind == SBV {
		sb.WriteString(strconv.Itoa(t.Sort.Width))
	} else if t.Sort.Kind == SOpaque {
		sb.WriteString(t.Sort.Name)
	} else if t.Sort.Kind == SArr && t.Op == OAConst {
		sb.WriteString(t.Sort.Key.String())
	}
	for _, a := range t.Args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.ID))
		if a.bound {
			t.bound = true
		}
	}
	switch t.Op {
	case OConst:
		sb.WriteString("#" + strconv.FormatUint(t.Val, 10))
	case OVar, OApp, OABase, OALam:
		sb.WriteString("#" + t.Name)
	case OExtract:
		sb.WriteString(fmt.Sprintf("#%d:%d", t.I, t.J))
	}
	k := sb.String()
	if o, ok := c.tab[k]; ok {
		return o
	}
	c.n++
	t.ID = c.n
	c.tab[k] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sext64(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func (c *Ctx) Const(v uint64, w int) *Term {
	if w > 64 {
		// wide constants are kept as concatenations
		return c.Concat(c.Const(0, w-64), c.Const(v, 64))
	}
	return c.mk(&Term{Op: OConst, Sort: c.BV(w), Val: v & mask(w)})
}

func (c *Ctx) BoolC(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (t *Term) IsConst() bool { return t.Op == OConst }

func (t *Term) BoolConst() (bool, bool) {
	if t.Op == OTrue {
		return true, true
	}
	if t.Op == OFalse {
		return false, true
	}
	return false, false
}

func (c *Ctx) Var(name string, s *Sort) *Term {
	return c.mk(&Term{Op: OVar, Sort: s, Name: name})
}

func (c *Ctx) Fresh(prefix string, s *Sort) *Term {
	c.fresh++
	if s.Kind == SArr {
		return c.ABase(fmt.Sprintf("%s!%d", prefix, c.fresh), s)
	}
	return c.Var(fmt.Sprintf("%s!%d", prefix, c.fresh), s)
}

func (c *Ctx) BoundVar(s *Sort) *Term {
	c.fresh++
	t := &Term{Op: OVar, Sort: s, Name: fmt.Sprintf("q!%d", c.fresh), bound: true}
	return c.mk(t)
}

func (c *Ctx) App(name string, ret *Sort, args ...*Term) *Term {
	if ret.Kind == SArr {
		panic("app of array sort")
	}
	if _, ok := c.funs[name]; !ok {
		d := &FunDecl{Name: name, Ret: ret}
		for _, a := range args {
			d.Args = append(d.Args, a.Sort)
		}
		c.funs[name] = d
	} else {
		d := c.funs[name]
		if len(d.Args) != len(args) || d.Ret != ret {
			panic("inconsistent use of " + name)
		}
		for i := range args {
			if d.Args[i] != args[i].Sort {
				panic(fmt.Sprintf("inconsistent arg sort for %s: %v %v", name, d.Args[i], args[i].Sort))
			}
		}
	}
	return c.mk(&Term{Op: OApp, Sort: ret, Name: name, Args: append([]*Term(nil), args...)})
}

func (c *Ctx) AddAxiom(t *Term) {
	if t == c.True || c.axSeen[t.ID] {
		return
	}
	c.axSeen[t.ID] = true
	c.Axioms = append(c.Axioms, t)
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.Op {
	case OTrue:
		return c.False
	case OFalse:
		return c.True
	case ONot:
		return a.Args[0]
	case OUlt:
		return c.Ule(a.Args[1], a.Args[0])
	case OUle:
		return c.Ult(a.Args[1], a.Args[0])
	case OSlt:
		return c.Sle(a.Args[1], a.Args[0])
	case OSle:
		return c.Slt(a.Args[1], a.Args[0])
	}
	return c.mk(&Term{Op: ONot, Sort: c.Bool, Args: []*Term{a}})
}

func (c *Ctx) And(xs ...*Term) *Term { return c.nary(OAnd, xs) }
func (c *Ctx) Or(xs ...*Term) *Term  { return c.nary(OOr, xs) }

func (c *Ctx) nary(op Op, xs []*Term) *Term {
	unit, zero := c.True, c.False
	if op == OOr {
		unit, zero = c.False, c.True
	}
	seen := map[int]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == zero {
			return false
		}
		if t == unit || seen[t.ID] {
			return true
		}
		if t.Op == op {
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		n := c.Not(t)
		if seen[n.ID] {
			return false
		}
		seen[t.ID] = true
		out = append(out, t)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if op == OAnd && len(out) <= 12 {
		// contradictory equalities of one term with different constants
		eqs := map[int]uint64{}
		for _, t := range out {
			if t.Op == OEq && t.Args[1].IsConst() {
				if v, ok := eqs[t.Args[0].ID]; ok && v != t.Args[1].Val {
					return c.False
				}
				eqs[t.Args[0].ID] = t.Args[1].Val
			}
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	if op == OOr && len(out) == 2 {
		// (a & b) | (a & !b) = a
		if r := c.orAbsorb(out[0], out[1]); r != nil {
			return r
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return c.mk(&Term{Op: op, Sort: c.Bool, Args: out})
}

func conjuncts(t *Term) []*Term {
	if t.Op == OAnd {
		return t.Args
	}
	return []*Term{t}
}

func (c *Ctx) orAbsorb(a, b *Term) *Term {
	ca, cb := conjuncts(a), conjuncts(b)
	inA := map[int]bool{}
	for _, x := range ca {
		inA[x.ID] = true
	}
	var common, onlyB []*Term
	for _, x := range cb {
		if inA[x.ID] {
			common = append(common, x)
			delete(inA, x.ID)
		} else {
			onlyB = append(onlyB, x)
		}
	}
	var onlyA []*Term
	for _, x := range ca {
		if inA[x.ID] {
			onlyA = append(onlyA, x)
		}
	}
	if len(onlyA) == 0 || len(onlyB) == 0 {
		return c.And(common...)
	}
	if len(onlyA) == 1 && len(onlyB) == 1 && c.Not(onlyA[0]) == onlyB[0] {
		return c.And(common...)
	}
	if len(onlyA) == 1 && len(onlyB) > 1 {
		// x | (!x & y) = x | y
		na := c.Not(onlyA[0])
		for i, y := range onlyB {
			if y == na {
				rest := append(append([]*Term(nil), onlyB[:i]...), onlyB[i+1:]...)
				return c.And(append(common, c.mkOr2(onlyA[0], c.And(rest...)))...)
			}
		}
	}
	if len(onlyB) == 1 && len(onlyA) > 1 {
		nb := c.Not(onlyB[0])
		for i, y := range onlyA {
			if y == nb {
				rest := append(append([]*Term(nil), onlyA[:i]...), onlyA[i+1:]...)
				return c.And(append(common, c.mkOr2(onlyB[0], c.And(rest...)))...)
			}
		}
	}
	if len(common) > 0 {
		return c.And(append(common, c.Or(c.And(onlyA...), c.And(onlyB...)))...)
	}
	return nil
}

func (c *Ctx) mkOr2(a, b *Term) *Term { return c.Or(a, b) }

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if a == b {
		return a
	}
	if v, ok := g.BoolConst(); ok {
		if v {
			return a
		}
		return b
	}
	if g.Op == ONot {
		return c.Ite(g.Args[0], b, a)
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sort mismatch %v %v", a.Sort, b.Sort))
	}
	if a.Sort.Kind == SBool {
		if a == c.True {
			return c.Or(g, b)
		}
		if a == c.False {
			return c.And(c.Not(g), b)
		}
		if b == c.True {
			return c.Or(c.Not(g), a)
		}
		if b == c.False {
			return c.And(g, a)
		}
	}
	if a.Op == OIte && a.Args[0] == g {
		a = a.Args[1]
	}
	if b.Op == OIte && b.Args[0] == g {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	if b.Op == OIte && b.Args[1] == a {
		return c.Ite(c.Or(g, b.Args[0]), a, b.Args[2])
	}
	return c.mk(&Term{Op: OIte, Sort: a.Sort, Args: []*Term{g, a, b}})
}

// constLeaves reports whether t is an ite tree with constant leaves of limited size.
func constLeaves(t *Term, budget *int) bool {
	*budget--
	if *budget < 0 {
		return false
	}
	if t.Op == OConst || t.Op == OTrue || t.Op == OFalse {
		return true
	}
	if t.Op == OIte {
		return constLeaves(t.Args[1], budget) && constLeaves(t.Args[2], budget)
	}
	return false
}

func isIteConst(t *Term) bool {
	if t.Op != OIte {
		return false
	}
	b := 65
	return constLeaves(t, &b)
}

func (c *Ctx) mapIte(t *Term, f func(*Term) *Term) *Term {
	if t.Op == OIte {
		return c.Ite(t.Args[0], c.mapIte(t.Args[1], f), c.mapIte(t.Args[2], f))
	}
	return f(t)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sort mismatch %v %v (%s / %s)", a.Sort, b.Sort, c.Show(a), c.Show(b)))
	}
	if a.Sort.Kind == SArr {
		panic("array equality")
	}
	if a.Op == OConst && b.Op == OConst {
		return c.BoolC(a.Val == b.Val)
	}
	if a.Sort == c.StrS {
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if l, ok := c.strOf[p[0].ID]; ok && l == "" {
				return c.Eq(c.StrLen(p[1]), c.Const(0, 64))
			}
		}
	}
	if a.Sort.Kind == SBool {
		if v, ok := a.BoolConst(); ok {
			if v {
				return b
			}
			return c.Not(b)
		}
		if v, ok := b.BoolConst(); ok {
			if v {
				return a
			}
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.False
		}
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if a.Sort == c.StrS {
		sa, oka := c.strOf[a.ID]
		sb, okb := c.strOf[b.ID]
		if oka && okb {
			return c.BoolC(sa == sb)
		}
		if oka && sa == "" {
			return c.Eq(c.StrLen(b), c.Const(0, 64))
		}
		if okb && sb == "" {
			return c.Eq(c.StrLen(a), c.Const(0, 64))
		}
		// texts of known length of which one is made of bytes
		var bytes func(t *Term) bool
		bytes = func(t *Term) bool {
			if _, ok := c.strOf[t.ID]; ok {
				return true
			}
			if t.Op == OApp && t.Name == "scat" {
				return bytes(t.Args[0]) && bytes(t.Args[1])
			}
			return t.Op == OApp && strings.HasPrefix(t.Name, "b2s#")
		}
		if bytes(a) && bytes(b) {
			la, lb := c.StrLen(a), c.StrLen(b)
			if la.IsConst() && lb.IsConst() && (la.Val != lb.Val || la.Val <= 64) {
				r := c.BoolC(la.Val == lb.Val)
				for i := uint64(0); i < la.Val && r != c.False; i++ {
					r = c.And(r, c.Eq(c.StrAt(a, c.Const(i, 64)), c.StrAt(b, c.Const(i, 64))))
				}
				return r
			}
		}
	}
	if b.Op == OConst && isIteConst(a) {
		return c.mapIte(a, func(x *Term) *Term { return c.BoolC(x.Val == b.Val) })
	}
	if a.Op == OConcat && b.Op == OConcat && a.Args[0].Sort == b.Args[0].Sort {
		return c.And(c.Eq(a.Args[0], b.Args[0]), c.Eq(a.Args[1], b.Args[1]))
	}
	if b.Op == OConst && b.Sort.Width <= 64 {
		if a.Op == OConcat && a.Sort.Width <= 64 {
			lw := a.Args[1].Sort.Width
			return c.And(c.Eq(a.Args[0], c.Const(b.Val>>uint(lw), a.Args[0].Sort.Width)), c.Eq(a.Args[1], c.Const(b.Val, lw)))
		}
		if a.Op == OZext {
			iw := a.Args[0].Sort.Width
			if b.Val&^mask(iw) != 0 {
				return c.False
			}
			return c.Eq(a.Args[0], c.Const(b.Val, iw))
		}
		if a.Op == OSext {
			iw := a.Args[0].Sort.Width
			if uint64(sext64(b.Val&mask(iw), iw))&mask(a.Sort.Width) != b.Val {
				return c.False
			}
			return c.Eq(a.Args[0], c.Const(b.Val, iw))
		}
		if a.Op == OAdd && a.Args[1].IsConst() {
			return c.Eq(a.Args[0], c.Const(b.Val-a.Args[1].Val, b.Sort.Width))
		}
		if a.Op == OBXor && a.Args[1].IsConst() {
			return c.Eq(a.Args[0], c.Const(b.Val^a.Args[1].Val, b.Sort.Width))
		}
	}
	if a.Op == OZext && b.Op == OZext && a.Args[0].Sort == b.Args[0].Sort {
		return c.Eq(a.Args[0], b.Args[0])
	}
	if a.Op == OSext && b.Op == OSext && a.Args[0].Sort == b.Args[0].Sort {
		return c.Eq(a.Args[0], b.Args[0])
	}
	// x + k1 == x + k2, x == x + k
	if a.Sort.Kind == SBV && a.Sort.Width <= 64 {
		ba, ka := c.splitAdd(a)
		bb, kb := c.splitAdd(b)
		if ba == bb {
			return c.BoolC(ka == kb)
		}
	}
	if b.Op != OConst && a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(&Term{Op: OEq, Sort: c.Bool, Args: []*Term{a, b}})
}

func (c *Ctx) splitAdd(t *Term) (*Term, uint64) {
	if t.Op == OAdd && t.Args[1].IsConst() {
		return t.Args[0], t.Args[1].Val
	}
	return t, 0
}

func (c *Ctx) bin(op Op, a, b *Term) *Term {
	return c.mk(&Term{Op: op, Sort: a.Sort, Args: []*Term{a, b}})
}

// fold applies f when both operands are constants, pushing through ite trees
// with constant leaves.
func (c *Ctx) fold(a, b *Term, f func(x, y uint64) *Term) *Term {
	if a.Sort.Kind != SBV || a.Sort.Width > 64 {
		return nil
	}
	if a.IsConst() && b.IsConst() {
		return f(a.Val, b.Val)
	}
	if a.IsConst() && isIteConst(b) {
		return c.mapIte(b, func(y *Term) *Term { return f(a.Val, y.Val) })
	}
	if b.IsConst() && isIteConst(a) {
		return c.mapIte(a, func(x *Term) *Term { return f(x.Val, b.Val) })
	}
	return nil
}

func checkSame(a, b *Term) {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("bv sort mismatch %v %v", a.Sort, b.Sort))
	}
}

func (c *Ctx) Add(a, b *Term) *Term {
	checkSame(a, b)
	w := a.Sort.Width
	if r := c.fold(a, b, func(x, y uint64) *Term { return c.Const(x+y, w) }); r != nil {
		return r
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.Val == 0 {
			return a
		}
		if a.Op == OAdd && a.Args[1].IsConst() {
			return c.Add(a.Args[0], c.Const(a.Args[1].Val+b.Val, w))
		}
		return c.bin(OAdd, a, b)
	}
	// float constants outward
	if a.Op == OAdd && a.Args[1].IsConst() {
		return c.Add(c.Add(a.Args[0], b), a.Args[1])
	}
	if b.Op == OAdd && b.Args[1].IsConst() {
		return c.Add(c.Add(a, b.Args[0]), b.Args[1])
	}
	if b.Op == OSub && b.Args[1] == a {
		return b.Args[0]
	}
	if a.Op == OSub && a.Args[1] == b {
		return a.Args[0]
	}
	return c.ac(OAdd, a, b)
}

// ac builds an associative, commutative operation with its operands in a fixed order.
func (c *Ctx) ac(op Op, a, b *Term) *Term {
	var ls []*Term
	var flat func(t *Term)
	flat = func(t *Term) {
		if t.Op == op && len(ls) < 16 {
			flat(t.Args[0])
			flat(t.Args[1])
			return
		}
		ls = append(ls, t)
	}
	flat(a)
	flat(b)
	sort.Slice(ls, func(i, j int) bool { return ls[i].ID < ls[j].ID })
	r := ls[0]
	for _, l := range ls[1:] {
		if op == OBOr && l == r {
			continue
		}
		r = c.bin(op, r, l)
	}
	return r
}

func (c *Ctx) Sub(a, b *Term) *Term {
	checkSame(a, b)
	w := a.Sort.Width
	if a == b {
		return c.Const(0, w)
	}
	if r := c.fold(a, b, func(x, y uint64) *Term { return c.Const(x-y, w) }); r != nil {
		return r
	}
	if b.IsConst() {
		return c.Add(a, c.Const(-b.Val, w))
	}
	ba, ka := c.splitAdd(a)
	bb, kb := c.splitAdd(b)
	if ba == bb {
		return c.Const(ka-kb, w)
	}
	if ka != 0 || kb != 0 {
		return c.Add(c.Sub(ba, bb), c.Const(ka-kb, w))
	}
	if a.Op == OAdd {
		if a.Args[0] == b {
			return a.Args[1]
		}
		if a.Args[1] == b {
			return a.Args[0]
		}
	}
	return c.bin(OSub, a, b)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	checkSame(a, b)
	w := a.Sort.Width
	if r := c.fold(a, b, func(x, y uint64) *Term { return c.Const(x*y, w) }); r != nil {
		return r
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.Val == 0 {
			return b
		}
		if b.Val == 1 {
			return a
		}
		return c.bin(OMul, a, b)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.bin(OMul, a, b)
}

func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.Const(0, a.Sort.Width), a) }

func (c *Ctx) UDiv(a, b *Term) *Term {
	w := a.Sort.Width
	if b.IsConst() && b.Val == 1 {
		return a
	}
	if !(b.IsConst() && b.Val == 0) {
		if r := c.fold(a, b, func(x, y uint64) *Term {
			if y == 0 {
				return c.Const(mask(w), w)
			}
			return c.Const(x/y, w)
		}); r != nil {
			return r
		}
	}
	return c.bin(OUDiv, a, b)
}

func (c *Ctx) URem(a, b *Term) *Term {
	w := a.Sort.Width
	if b.IsConst() && b.Val != 0 && b.Val&(b.Val-1) == 0 {
		return c.BAnd(a, c.Const(b.Val-1, w))
	}
	if r := c.fold(a, b, func(x, y uint64) *Term {
		if y == 0 {
			return c.Const(x, w)
		}
		return c.Const(x%y, w)
	}); r != nil {
		return r
	}
	return c.bin(OURem, a, b)
}

func (c *Ctx) SDiv(a, b *Term) *Term {
	w := a.Sort.Width
	if b.IsConst() && b.Val == 1 {
		return a
	}
	if a.IsConst() && b.IsConst() && b.Val != 0 {
		x, y := sext64(a.Val, w), sext64(b.Val, w)
		if y == -1 {
			return c.Const(uint64(-x), w)
		}
		return c.Const(uint64(x/y), w)
	}
	return c.bin(OSDiv, a, b)
}

func (c *Ctx) SRem(a, b *Term) *Term {
	w := a.Sort.Width
	if a.IsConst() && b.IsConst() && b.Val != 0 {
		x, y := sext64(a.Val, w), sext64(b.Val, w)
		if y == -1 {
			return c.Const(0, w)
		}
		return c.Const(uint64(x%y), w)
	}
	return c.bin(OSRem, a, b)
}

func (c *Ctx) BAnd(a, b *Term) *Term {
	checkSame(a, b)
	w := a.Sort.Width
	if a == b {
		return a
	}
	if r := c.fold(a, b, func(x, y uint64) *Term { return c.Const(x&y, w) }); r != nil {
		return r
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.Val == 0 {
			return b
		}
		if b.Val == mask(w) {
			return a
		}
		if a.Op == OBAnd && a.Args[1].IsConst() {
			return c.BAnd(a.Args[0], c.Const(a.Args[1].Val&b.Val, w))
		}
		// low mask: zero-extended extract
		if b.Val&(b.Val+1) == 0 {
			n := bits.Len64(b.Val)
			if n < w {
				return c.Zext(c.Extract(a, n-1, 0), w)
			}
		}
		return c.bin(OBAnd, a, b)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.bin(OBAnd, a, b)
}

func (c *Ctx) BOr(a, b *Term) *Term {
	checkSame(a, b)
	w := a.Sort.Width
	if a == b {
		return a
	}
	if r := c.fold(a, b, func(x, y uint64) *Term { return c.Const(x|y, w) }); r != nil {
		return r
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.Val == 0 {
			return a
		}
		if b.Val == mask(w) {
			return b
		}
		if a.Op == OBOr && a.Args[1].IsConst() {
			return c.BOr(a.Args[0], c.Const(a.Args[1].Val|b.Val, w))
		}
		return c.bin(OBOr, a, b)
	}
	if a.Op == OBOr && a.Args[1].IsConst() {
		return c.BOr(c.BOr(a.Args[0], b), a.Args[1])
	}
	if b.Op == OBOr && b.Args[1].IsConst() {
		return c.BOr(c.BOr(a, b.Args[0]), b.Args[1])
	}
	return c.ac(OBOr, a, b)
}

func (c *Ctx) BXor(a, b *Term) *Term {
	checkSame(a, b)
	w := a.Sort.Width
	if a == b {
		return c.Const(0, w)
	}
	if r := c.fold(a, b, func(x, y uint64) *Term { return c.Const(x^y, w) }); r != nil {
		return r
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.Val == 0 {
			return a
		}
		if a.Op == OBXor && a.Args[1].IsConst() {
			return c.BXor(a.Args[0], c.Const(a.Args[1].Val^b.Val, w))
		}
		return c.bin(OBXor, a, b)
	}
	if a.Op == OBXor && a.Args[1].IsConst() {
		return c.BXor(c.BXor(a.Args[0], b), a.Args[1])
	}
	if b.Op == OBXor && b.Args[1].IsConst() {
		return c.BXor(c.BXor(a, b.Args[0]), b.Args[1])
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.bin(OBXor, a, b)
}

func (c *Ctx) BNot(a *Term) *Term { return c.BXor(a, c.allOnes(a.Sort.Width)) }
func (c *Ctx) allOnes(w int) *Term {
	if w > 64 {
		return c.Concat(c.allOnes(w-64), c.allOnes(64))
	}
	return c.Const(mask(w), w)
}

// Shifts here take an amount of the same width, with SMT semantics
// (amount >= width gives zero, or the sign for ashr), as in Go.
func (c *Ctx) Shl(a, b *Term) *Term {
	w := a.Sort.Width
	if b.IsConst() {
		if b.Val == 0 {
			return a
		}
		if b.Val >= uint64(w) {
			return c.Const(0, w)
		}
		return c.Concat(c.Extract(a, w-1-int(b.Val), 0), c.Const(0, int(b.Val)))
	}
	if a.IsConst() && a.Val == 0 {
		return a
	}
	if isIteConst(b) {
		return c.mapIte(b, func(y *Term) *Term { return c.Shl(a, y) })
	}
	return c.bin(OShl, a, b)
}

func (c *Ctx) Lshr(a, b *Term) *Term {
	w := a.Sort.Width
	if b.IsConst() {
		if b.Val == 0 {
			return a
		}
		if b.Val >= uint64(w) {
			return c.Const(0, w)
		}
		return c.Zext(c.Extract(a, w-1, int(b.Val)), w)
	}
	if a.IsConst() && a.Val == 0 {
		return a
	}
	if isIteConst(b) {
		return c.mapIte(b, func(y *Term) *Term { return c.Lshr(a, y) })
	}
	return c.bin(OLshr, a, b)
}

func (c *Ctx) Ashr(a, b *Term) *Term {
	w := a.Sort.Width
	if b.IsConst() {
		if b.Val == 0 {
			return a
		}
		k := int(b.Val)
		if b.Val >= uint64(w) {
			k = w - 1
		}
		return c.Sext(c.Extract(a, w-1, k), w)
	}
	if isIteConst(b) {
		return c.mapIte(b, func(y *Term) *Term { return c.Ashr(a, y) })
	}
	return c.bin(OAshr, a, b)
}

func (c *Ctx) cmp(op Op, a, b *Term) *Term {
	return c.mk(&Term{Op: op, Sort: c.Bool, Args: []*Term{a, b}})
}

func (c *Ctx) Ult(a, b *Term) *Term {
	checkSame(a, b)
	if a == b {
		return c.False
	}
	if r := c.fold(a, b, func(x, y uint64) *Term { return c.BoolC(x < y) }); r != nil {
		return r
	}
	if b.IsConst() && b.Val == 0 {
		return c.False
	}
	if b.IsConst() && b.Val == 1 {
		return c.Eq(a, c.Const(0, a.Sort.Width))
	}
	if a.IsConst() && a.Val == 0 {
		return c.Not(c.Eq(b, a))
	}
	if a.Op == OZext && b.IsConst() {
		iw := a.Args[0].Sort.Width
		if b.Val > mask(iw) {
			return c.True
		}
		return c.Ult(a.Args[0], c.Const(b.Val, iw))
	}
	if b.Op == OZext && a.IsConst() {
		iw := b.Args[0].Sort.Width
		if a.Val >= mask(iw) {
			return c.False
		}
		return c.Ult(c.Const(a.Val, iw), b.Args[0])
	}
	return c.cmp(OUlt, a, b)
}

func (c *Ctx) Ule(a, b *Term) *Term {
	checkSame(a, b)
	if a == b {
		return c.True
	}
	if r := c.fold(a, b, func(x, y uint64) *Term { return c.BoolC(x <= y) }); r != nil {
		return r
	}
	if a.IsConst() && a.Val == 0 {
		return c.True
	}
	if b.IsConst() && b.Val == 0 {
		return c.Eq(a, b)
	}
	if b.IsConst() && b.Val == mask(b.Sort.Width) {
		return c.True
	}
	if a.Op == OZext && b.IsConst() {
		iw := a.Args[0].Sort.Width
		if b.Val >= mask(iw) {
			return c.True
		}
		return c.Ule(a.Args[0], c.Const(b.Val, iw))
	}
	if b.Op == OZext && a.IsConst() {
		iw := b.Args[0].Sort.Width
		if a.Val > mask(iw) {
			return c.False
		}
		return c.Ule(c.Const(a.Val, iw), b.Args[0])
	}
	return c.cmp(OUle, a, b)
}

func (c *Ctx) Slt(a, b *Term) *Term {
	checkSame(a, b)
	w := a.Sort.Width
	if a == b {
		return c.False
	}
	if r := c.fold(a, b, func(x, y uint64) *Term { return c.BoolC(sext64(x, w) < sext64(y, w)) }); r != nil {
		return r
	}
	if a.IsConst() && a.Val == 0 && b.Op == OApp && b.Name == "slen" {
		return c.Not(c.Eq(b, a))
	}
	if a.Op == OZext && b.IsConst() {
		if sext64(b.Val, w) <= 0 {
			return c.False
		}
		return c.Ult(a, b)
	}
	if b.Op == OZext && a.IsConst() {
		if sext64(a.Val, w) < 0 {
			return c.True
		}
		return c.Ult(a, b)
	}
	if a.Op == OZext && b.Op == OZext {
		return c.Ult(a, b)
	}
	return c.cmp(OSlt, a, b)
}

func (c *Ctx) Sle(a, b *Term) *Term {
	checkSame(a, b)
	w := a.Sort.Width
	if a == b {
		return c.True
	}
	if r := c.fold(a, b, func(x, y uint64) *Term { return c.BoolC(sext64(x, w) <= sext64(y, w)) }); r != nil {
		return r
	}
	if a.Op == OZext && b.IsConst() {
		if sext64(b.Val, w) < 0 {
			return c.False
		}
		return c.Ule(a, b)
	}
	if b.Op == OZext && a.IsConst() {
		if sext64(a.Val, w) <= 0 {
			return c.True
		}
		return c.Ule(a, b)
	}
	if a.Op == OZext && b.Op == OZext {
		return c.Ule(a, b)
	}
	return c.cmp(OSle, a, b)
}

func (c *Ctx) Concat(a, b *Term) *Term {
	w := a.Sort.Width + b.Sort.Width
	if a.IsConst() && b.IsConst() && w <= 64 {
		return c.Const(a.Val<<uint(b.Sort.Width)|b.Val, w)
	}
	if a.IsConst() && a.Val == 0 && w <= 64 {
		return c.Zext(b, w)
	}
	// merge adjacent extracts
	if a.Op == OExtract && b.Op == OExtract && a.Args[0] == b.Args[0] && a.J == b.I+1 {
		return c.Extract(a.Args[0], a.I, b.J)
	}
	return c.mk(&Term{Op: OConcat, Sort: c.BV(w), Args: []*Term{a, b}})
}

func (c *Ctx) Extract(a *Term, hi, lo int) *Term {
	w := a.Sort.Width
	if hi == w-1 && lo == 0 {
		return a
	}
	n := hi - lo + 1
	switch a.Op {
	case OConst:
		return c.Const(a.Val>>uint(lo), n)
	case OExtract:
		return c.Extract(a.Args[0], hi+a.J, lo+a.J)
	case OConcat:
		lw := a.Args[1].Sort.Width
		if hi < lw {
			return c.Extract(a.Args[1], hi, lo)
		}
		if lo >= lw {
			return c.Extract(a.Args[0], hi-lw, lo-lw)
		}
		return c.Concat(c.Extract(a.Args[0], hi-lw, 0), c.Extract(a.Args[1], lw-1, lo))
	case OZext:
		iw := a.Args[0].Sort.Width
		if hi < iw {
			return c.Extract(a.Args[0], hi, lo)
		}
		if lo >= iw {
			return c.Const(0, n)
		}
		return c.Zext(c.Extract(a.Args[0], iw-1, lo), n)
	case OSext:
		iw := a.Args[0].Sort.Width
		if hi < iw {
			return c.Extract(a.Args[0], hi, lo)
		}
		if lo < iw {
			return c.Sext(c.Extract(a.Args[0], iw-1, lo), n)
		}
	case OIte:
		if isIteConst(a) {
			return c.mapIte(a, func(x *Term) *Term { return c.Extract(x, hi, lo) })
		}
	case OBAnd, OBOr, OBXor:
		x, y := c.Extract(a.Args[0], hi, lo), c.Extract(a.Args[1], hi, lo)
		switch a.Op {
		case OBAnd:
			return c.BAnd(x, y)
		case OBOr:
			return c.BOr(x, y)
		default:
			return c.BXor(x, y)
		}
	}
	return c.mk(&Term{Op: OExtract, Sort: c.BV(n), Args: []*Term{a}, I: hi, J: lo})
}

func (c *Ctx) Zext(a *Term, w int) *Term {
	if a.Sort.Width == w {
		return a
	}
	if w > 64 {
		return c.Concat(c.wideZero(w-a.Sort.Width), a)
	}
	if a.IsConst() {
		return c.Const(a.Val, w)
	}
	if a.Op == OZext {
		return c.Zext(a.Args[0], w)
	}
	if isIteConst(a) {
		return c.mapIte(a, func(x *Term) *Term { return c.Const(x.Val, w) })
	}
	return c.mk(&Term{Op: OZext, Sort: c.BV(w), Args: []*Term{a}})
}

func (c *Ctx) wideZero(w int) *Term {
	if w <= 64 {
		return c.Const(0, w)
	}
	return c.mk(&Term{Op: OConcat, Sort: c.BV(w), Args: []*Term{c.wideZero(w - 64), c.Const(0, 64)}})
}

func (c *Ctx) Sext(a *Term, w int) *Term {
	if a.Sort.Width == w {
		return a
	}
	if a.IsConst() {
		return c.Const(uint64(sext64(a.Val, a.Sort.Width)), w)
	}
	if a.Op == OSext {
		return c.Sext(a.Args[0], w)
	}
	if a.Op == OZext {
		return c.Zext(a.Args[0], w)
	}
	if isIteConst(a) {
		return c.mapIte(a, func(x *Term) *Term { return c.Const(uint64(sext64(x.Val, x.Sort.Width)), w) })
	}
	return c.mk(&Term{Op: OSext, Sort: c.BV(w), Args: []*Term{a}})
}

func (c *Ctx) Forall(v *Term, body *Term) *Term {
	if _, ok := body.BoolConst(); ok {
		return body
	}
	t := &Term{Op: OForall, Sort: c.Bool, Args: []*Term{v, body}}
	t = c.mk(t)
	// the variable is no longer free in the quantified term
	t.bound = hasOtherBound(body, v, map[int]bool{})
	return t
}

// Arrays

func (c *Ctx) ABase(name string, s *Sort) *Term {
	return c.mk(&Term{Op: OABase, Sort: s, Name: name})
}

// ABaseOf is the unknown array named by a reference: equal references have
// equal contents.
func (c *Ctx) ABaseOf(name string, s *Sort, ref *Term) *Term {
	return c.mk(&Term{Op: OABase, Sort: s, Name: name, Args: []*Term{ref}})
}

func (c *Ctx) AConst(s *Sort, v *Term) *Term {
	return c.mk(&Term{Op: OAConst, Sort: s, Args: []*Term{v}})
}

func (c *Ctx) AStore(a, k, v *Term) *Term {
	if k.Sort != a.Sort.Key || v.Sort != a.Sort.Elem {
		panic(fmt.Sprintf("store sort mismatch key %v/%v elem %v/%v", k.Sort, a.Sort.Key, v.Sort, a.Sort.Elem))
	}
	if a.Op == OAStore && a.Args[1] == k {
		a = a.Args[0]
	}
	return c.mk(&Term{Op: OAStore, Sort: a.Sort, Args: []*Term{a, k, v}})
}

// ACopy is dst with n elements starting at doff replaced by those of src starting at soff.
func (c *Ctx) ACopy(dst, doff, src, soff, n *Term) *Term {
	if n.IsConst() && n.Val == 0 {
		return dst
	}
	if n.IsConst() && n.Val <= 16 {
		r := dst
		for i := uint64(0); i < n.Val; i++ {
			r = c.AStore(r, c.Add(doff, c.Const(i, 64)), c.Select(src, c.Add(soff, c.Const(i, 64))))
		}
		return r
	}
	return c.mk(&Term{Op: OACopy, Sort: dst.Sort, Args: []*Term{dst, doff, src, soff, n}})
}

func (c *Ctx) AIte(g, a, b *Term) *Term {
	if a == b {
		return a
	}
	if v, ok := g.BoolConst(); ok {
		if v {
			return a
		}
		return b
	}
	return c.mk(&Term{Op: OIte, Sort: a.Sort, Args: []*Term{g, a, b}})
}

func (c *Ctx) Select(a, k *Term) *Term {
	if k.Sort != a.Sort.Key {
		panic(fmt.Sprintf("select key sort %v want %v", k.Sort, a.Sort.Key))
	}
	switch a.Op {
	case OABase:
		if len(a.Args) > 0 {
			return c.App(a.Name, a.Sort.Elem, a.Args[0], k)
		}
		return c.App(a.Name, a.Sort.Elem, k)
	case OAConst:
		return a.Args[0]
	case OAStore:
		e := c.Eq(a.Args[1], k)
		if v, ok := e.BoolConst(); ok {
			if v {
				return a.Args[2]
			}
			return c.Select(a.Args[0], k)
		}
		return c.Ite(e, a.Args[2], c.Select(a.Args[0], k))
	case OACopy:
		d := c.Sub(k, a.Args[1])
		in := c.Ult(d, a.Args[4])
		if v, ok := in.BoolConst(); ok {
			if v {
				return c.Select(a.Args[2], c.Add(a.Args[3], d))
			}
			return c.Select(a.Args[0], k)
		}
		return c.Ite(in, c.Select(a.Args[2], c.Add(a.Args[3], d)), c.Select(a.Args[0], k))
	case OIte:
		return c.Ite(a.Args[0], c.Select(a.Args[1], k), c.Select(a.Args[2], k))
	case OALam:
		// bytes of a string
		return c.StrAt(a.Args[0], k)
	}
	panic("select on unknown array")
}

// Strings

func (c *Ctx) Str(s string) *Term {
	if t, ok := c.strs[s]; ok {
		return t
	}
	t := c.Var(fmt.Sprintf("lit!%d", len(c.strs)), c.StrS)
	id := len(c.strs)
	c.strs[s] = t
	c.strOf[t.ID] = s
	c.AddAxiom(c.Eq(c.App("strid", c.BV(32), t), c.Const(uint64(id), 32)))
	c.AddAxiom(c.Eq(c.App("slen", c.BV(64), t), c.Const(uint64(len(s)), 64)))
	return t
}

func (c *Ctx) StrLit(t *Term) (string, bool) {
	s, ok := c.strOf[t.ID]
	return s, ok
}

func (c *Ctx) StrLen(t *Term) *Term {
	if s, ok := c.strOf[t.ID]; ok {
		return c.Const(uint64(len(s)), 64)
	}
	if t.Op == OIte {
		return c.Ite(t.Args[0], c.StrLen(t.Args[1]), c.StrLen(t.Args[2]))
	}
	if t.Op == OApp && t.Name == "scat" {
		return c.Add(c.StrLen(t.Args[0]), c.StrLen(t.Args[1]))
	}
	if t.Op == OApp && t.Name == "ssub" {
		return c.Sub(t.Args[2], t.Args[1])
	}
	if t.Op == OApp && strings.HasPrefix(t.Name, "b2s#") {
		return t.Args[1]
	}
	r := c.App("slen", c.BV(64), t)
	if !t.bound {
		c.AddAxiom(c.Ult(r, c.Const(1<<40, 64)))
	}
	return r
}

func (c *Ctx) StrAt(t, i *Term) *Term {
	if s, ok := c.strOf[t.ID]; ok && i.IsConst() && i.Val < uint64(len(s)) {
		return c.Const(uint64(s[i.Val]), 8)
	}
	if t.Op == OIte {
		return c.Ite(t.Args[0], c.StrAt(t.Args[1], i), c.StrAt(t.Args[2], i))
	}
	if t.Op == OApp && t.Name == "ssub" {
		return c.StrAt(t.Args[0], c.Add(t.Args[1], i))
	}
	if t.Op == OApp && strings.HasPrefix(t.Name, "b2s#") {
		return c.Select(c.b2sArr[t.Name], c.Add(t.Args[0], i))
	}
	if t.Op == OApp && t.Name == "scat" && i.IsConst() {
		if n := c.StrLen(t.Args[0]); n.IsConst() {
			if i.Val >= n.Val {
				return c.StrAt(t.Args[1], c.Const(i.Val-n.Val, 64))
			}
			return c.StrAt(t.Args[0], i)
		}
	}
	if s, ok := c.strOf[t.ID]; ok && len(s) <= 16 {
		r := c.App("sat", c.BV(8), t, i)
		for k := len(s) - 1; k >= 0; k-- {
			r = c.Ite(c.Eq(i, c.Const(uint64(k), 64)), c.Const(uint64(s[k]), 8), r)
		}
		return r
	}
	return c.App("sat", c.BV(8), t, i)
}

func (c *Ctx) StrCat(a, b *Term) *Term {
	sa, oka := c.strOf[a.ID]
	sb, okb := c.strOf[b.ID]
	if oka && okb {
		return c.Str(sa + sb)
	}
	if oka && sa == "" {
		return b
	}
	if okb && sb == "" {
		return a
	}
	// right-associate, merging adjacent literals
	if a.Op == OApp && a.Name == "scat" {
		return c.StrCat(a.Args[0], c.StrCat(a.Args[1], b))
	}
	if oka && b.Op == OApp && b.Name == "scat" {
		if s2, ok := c.strOf[b.Args[0].ID]; ok {
			return c.StrCat(c.Str(sa+s2), b.Args[1])
		}
	}
	return c.App("scat", c.StrS, a, b)
}

func (c *Ctx) StrSub(s, lo, hi *Term) *Term {
	if l, ok := c.strOf[s.ID]; ok && lo.IsConst() && hi.IsConst() && lo.Val <= hi.Val && hi.Val <= uint64(len(l)) {
		return c.Str(l[lo.Val:hi.Val])
	}
	if lo.IsConst() && lo.Val == 0 && hi == c.StrLen(s) {
		return s
	}
	if s.Op == OApp && s.Name == "ssub" {
		return c.StrSub(s.Args[0], c.Add(s.Args[1], lo), c.Add(s.Args[1], hi))
	}
	if s.Op == OApp && s.Name == "scat" && lo.IsConst() {
		if l, ok := c.strOf[s.Args[0].ID]; ok && lo.Val >= uint64(len(l)) {
			n := c.Const(uint64(len(l)), 64)
			return c.StrSub(s.Args[1], c.Sub(lo, n), c.Sub(hi, n))
		}
		if lo.Val == 0 && hi == c.StrLen(s.Args[0]) {
			return s.Args[0]
		}
	}
	// what starts after the first part lies in the rest
	if s.Op == OApp && s.Name == "scat" && !lo.IsConst() {
		n := c.StrLen(s.Args[0])
		if k := c.Sub(lo, n); k.IsConst() && k.Val < 1<<32 {
			return c.StrSub(s.Args[1], k, c.Sub(hi, n))
		}
	}
	return c.App("ssub", c.StrS, s, lo, hi)
}

// StrLt is lexical order on strings, through a ranking into 128 bits.
func (c *Ctx) StrLt(a, b *Term) *Term {
	sa, oka := c.strOf[a.ID]
	sb, okb := c.strOf[b.ID]
	if oka && okb {
		return c.BoolC(sa < sb)
	}
	if a == b {
		return c.False
	}
	// any finitely many strings have ranks that are ordered as they are
	ra, rb := c.App("srank", c.BV(64), a), c.App("srank", c.BV(64), b)
	if !a.bound && !b.bound {
		c.AddAxiom(c.Eq(c.Eq(a, b), c.Eq(ra, rb)))
	}
	return c.Ult(ra, rb)
}

// Printing

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat"}

func smtName(n string) string { return "|" + strings.ReplaceAll(n, "|", "/") + "|" }

func constText(t *Term) string {
	w := t.Sort.Width
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, t.Val)
	}
	return fmt.Sprintf("#b%0*b", w, t.Val)
}

// node prints one node given printed arguments.
func (c *Ctx) node(t *Term, args []string) string {
	switch t.Op {
	case OConst:
		return constText(t)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar:
		return smtName(t.Name)
	case OApp:
		if len(args) == 0 {
			return smtName(t.Name)
		}
		return "(" + smtName(t.Name) + " " + strings.Join(args, " ") + ")"
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.I, t.J, args[0])
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.Sort.Width-t.Args[0].Sort.Width, args[0])
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.Sort.Width-t.Args[0].Sort.Width, args[0])
	case OForall:
		return fmt.Sprintf("(forall ((%s %s)) %s)", smtName(t.Args[0].Name), t.Args[0].Sort, args[1])
	}
	n, ok := opNames[t.Op]
	if !ok {
		return fmt.Sprintf("<op%d %s>", t.Op, strings.Join(args, " "))
	}
	return "(" + n + " " + strings.Join(args, " ") + ")"
}

// Show prints a term for humans, depth limited.
func (c *Ctx) Show(t *Term) string { return c.show(t, 6) }

func (c *Ctx) show(t *Term, d int) string {
	if s, ok := c.strOf[t.ID]; ok {
		return strconv.Quote(s)
	}
	if d == 0 {
		return "…"
	}
	if t.Op == OConst {
		if t.Sort.Width == 64 {
			return strconv.FormatInt(int64(t.Val), 10)
		}
		return strconv.FormatUint(t.Val, 10)
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, c.show(a, d-1))
	}
	return c.node(t, as)
}

func hasOtherBound(t, v *Term, seen map[int]bool) bool {
	if !t.bound || t == v || seen[t.ID] {
		return false
	}
	seen[t.ID] = true
	if t.Op == OVar {
		return true
	}
	for _, a := range t.Args {
		if hasOtherBound(a, v, seen) {
			return true
		}
	}
	return false
}

func (c *Ctx) b2s(arr *Term) {
	if c.b2sArr == nil {
		c.b2sArr = map[string]*Term{}
	}
	c.b2sArr[fmt.Sprintf("b2s#%d", arr.ID)] = arr
}
