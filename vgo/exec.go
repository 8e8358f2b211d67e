package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	Name   string
	Kind   string
	Where  string
	Status string // discharged, failed, unknown
	Detail string
	Model  map[string]interface{}
	Reach  bool
}

type Exec struct {
	C    *Ctx
	S    *Solver
	Prog *ssa.Program
	L    *Loaded

	objN   int
	boxN   int
	boxTab []Val
	boxIdx map[string]int

	fninfo map[*ssa.Function]*fnInfo

	Obls         map[string]*Obligation
	oblOrder     []string
	counts       map[string]int // discharged / failed checks by kind
	Trusted      map[string]bool
	Inlined      map[*ssa.Function]bool
	Assume       map[string]bool
	global       *State
	globObj      map[*ssa.Global]int
	rtypes       map[string]int
	rtypeOf      map[int]types.Type
	cutLoops     map[*ssa.BasicBlock]bool
	unroll       map[*ssa.BasicBlock]int
	frameN       int
	depth        int
	dry          int
	pure         int
	typeIDs      map[string]uint64
	lenient      bool
	syncGo       bool // run goroutines where they are started
	pending      int  // holds goroutines that the contract starts
	Deadline     time.Time
	Stats        struct{ Paths, Merges, Instrs, Loops, Cands, Kept int }
	inputs       []Input
	summaries    map[string]*ssa.Function
	used         map[string]bool
	loopRep      map[string]*LoopReport
	feasMS       time.Duration
	oblMS        time.Duration
	ghostN       int
	hname        string
	stack        []string
	fnStack      []*ssa.Function
	goCalls      map[string]bool
	fnUnderProof *ssa.Function
	unrollAll    int
	hardIf       map[*ssa.BasicBlock]int
	cheap        map[[2]*ssa.BasicBlock]bool
	inputArr     map[int]*SymArr
}

type LoopReport struct {
	Fn    string
	Kept  []string
	Cands int
}

type Input struct {
	Name string
	T    types.Type
	V    Val
}

type fnInfo struct {
	idx   map[ssa.Value]int
	n     int
	ipdom map[*ssa.BasicBlock]*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*loopInfo // header -> loop
	inner map[*ssa.BasicBlock]*loopInfo // innermost loop of block
	live  map[*ssa.BasicBlock]map[int]bool
}

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopInfo
	joins  map[*ssa.BasicBlock]*ssa.BasicBlock
}

// join is the block where all ways that stay in the loop meet again after b,
// the header at the latest. It is nil if only one successor stays.
func (l *loopInfo) join(b *ssa.BasicBlock) *ssa.BasicBlock {
	if l.joins != nil {
		return l.joins[b]
	}
	l.joins = map[*ssa.BasicBlock]*ssa.BasicBlock{}
	reach := map[*ssa.BasicBlock]bool{}
	var back func(x *ssa.BasicBlock)
	back = func(x *ssa.BasicBlock) {
		for _, p := range x.Preds {
			if l.blocks[p] && !reach[p] {
				reach[p] = true
				if p != l.header {
					back(p)
				}
			}
		}
	}
	back(l.header)
	// sets of post-dominators; nil stands for the next arrival at the header
	type set map[*ssa.BasicBlock]bool
	pd := map[*ssa.BasicBlock]set{}
	var nodes []*ssa.BasicBlock
	for x := range reach {
		nodes = append(nodes, x)
	}
	succs := func(x *ssa.BasicBlock) []*ssa.BasicBlock {
		var r []*ssa.BasicBlock
		for _, s := range x.Succs {
			if s == l.header {
				r = append(r, nil)
			} else if l.blocks[s] && reach[s] {
				r = append(r, s)
			}
		}
		return r
	}
	get := func(x *ssa.BasicBlock) set {
		if x == nil {
			return set{nil: true}
		}
		return pd[x] // nil means everything
	}
	for changed := true; changed; {
		changed = false
		for _, x := range nodes {
			var cur set
			for _, s := range succs(x) {
				o := get(s)
				if o == nil {
					continue
				}
				n := set{}
				for k := range o {
					if cur == nil || cur[k] {
						n[k] = true
					}
				}
				cur = n
			}
			if cur == nil {
				continue
			}
			cur[x] = true
			if pd[x] == nil || len(cur) != len(pd[x]) {
				pd[x] = cur
				changed = true
			}
		}
	}
	for _, x := range nodes {
		if len(succs(x)) < 2 {
			continue
		}
		// the closest post-dominator has the most post-dominators itself
		var best *ssa.BasicBlock
		n := 0
		for k := range pd[x] {
			if k != x && len(get(k)) > n {
				best, n = k, len(get(k))
			}
		}
		if best == nil {
			best = l.header
		}
		l.joins[x] = best
	}
	return l.joins[b]
}

type deferred struct {
	call  *ssa.CallCommon
	fn    Val
	args  []Val
	instr ssa.Instruction
}

type Frame struct {
	fn     *ssa.Function
	info   *fnInfo
	env    []Val
	defers []deferred
	serial int
	visits map[*ssa.BasicBlock]int
	// set while deferred functions of a panicking frame run
	panicking *panicInfo
	cutting   map[*ssa.BasicBlock]bool
	loopStop  *loopInfo
}

type panicInfo struct {
	msg       string
	where     string
	kind      string
	val       Val
	recovered *bool
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = append([]Val(nil), f.env...)
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.visits = make(map[*ssa.BasicBlock]int, len(f.visits))
	for k, v := range f.visits {
		n.visits[k] = v
	}
	return &n
}

type outKind int

const (
	oStop outKind = iota
	oReturn
	oPanic
	oExit // left the loop being cut, standing at block at
)

type Out struct {
	kind outKind
	st   *State
	fr   *Frame
	ret  Val
	p    *panicInfo
	at   *ssa.BasicBlock
	from *ssa.BasicBlock
}

type CallOut struct {
	st  *State
	ret Val
	p   *panicInfo
}

type cutReq struct {
	header *ssa.BasicBlock
	serial int
}

func (x *Exec) info(fn *ssa.Function) *fnInfo {
	if i, ok := x.fninfo[fn]; ok {
		return i
	}
	i := &fnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		i.idx[v] = i.n
		i.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	i.ipdom = postDoms(fn)
	i.loops, i.inner = findLoops(fn)
	i.live = liveness(fn, i)
	x.fninfo[fn] = i
	return i
}

func postDoms(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	n := len(fn.Blocks)
	// sets as bitmaps over blocks plus virtual exit n
	words := (n + 64) / 64
	full := make([]uint64, words)
	for i := range full {
		full[i] = ^uint64(0)
	}
	pd := make([][]uint64, n+1)
	for i := 0; i <= n; i++ {
		pd[i] = append([]uint64(nil), full...)
	}
	set := func(s []uint64, i int) { s[i/64] |= 1 << uint(i%64) }
	has := func(s []uint64, i int) bool { return s[i/64]&(1<<uint(i%64)) != 0 }
	pd[n] = make([]uint64, words)
	set(pd[n], n)
	changed := true
	for changed {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			cur := append([]uint64(nil), full...)
			if len(b.Succs) == 0 {
				copy(cur, pd[n])
			}
			for _, s := range b.Succs {
				for w := range cur {
					cur[w] &= pd[s.Index][w]
				}
			}
			set(cur, bi)
			for w := range cur {
				if cur[w] != pd[bi][w] {
					changed = true
				}
			}
			pd[bi] = cur
		}
	}
	res := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	count := func(s []uint64) int {
		c := 0
		for i := 0; i <= n; i++ {
			if has(s, i) {
				c++
			}
		}
		return c
	}
	for bi := 0; bi < n; bi++ {
		best, bc := -1, -1
		if !has(pd[bi], n) {
			continue
		}
		for j := 0; j < n; j++ {
			if j != bi && has(pd[bi], j) {
				if c := count(pd[j]); c > bc {
					best, bc = j, c
				}
			}
		}
		if best >= 0 {
			res[fn.Blocks[bi]] = fn.Blocks[best]
		}
	}
	return res
}

func findLoops(fn *ssa.Function) (map[*ssa.BasicBlock]*loopInfo, map[*ssa.BasicBlock]*loopInfo) {
	loops := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					c := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[c] {
						continue
					}
					l.blocks[c] = true
					work = append(work, c.Preds...)
				}
			}
		}
	}
	inner := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		var best *loopInfo
		for _, l := range loops {
			if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
				best = l
			}
		}
		if best != nil {
			inner[b] = best
		}
	}
	return loops, inner
}

func liveness(fn *ssa.Function, info *fnInfo) map[*ssa.BasicBlock]map[int]bool {
	live := map[*ssa.BasicBlock]map[int]bool{}
	for _, b := range fn.Blocks {
		live[b] = map[int]bool{}
	}
	changed := true
	for changed {
		changed = false
		for bi := len(fn.Blocks) - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			cur := map[int]bool{}
			for _, s := range b.Succs {
				for k := range live[s] {
					cur[k] = true
				}
				pi := -1
				for i, p := range s.Preds {
					if p == b {
						pi = i
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(cur, info.idx[ph])
					if k, ok := info.idx[ph.Edges[pi]]; ok {
						cur[k] = true
					}
				}
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(cur, info.idx[v])
				}
				var ops [16]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if *op == nil {
						continue
					}
					if k, ok := info.idx[*op]; ok {
						cur[k] = true
					}
				}
			}
			// phis of the block are evaluated before its entry
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				cur[info.idx[ph]] = true
			}
			if len(cur) != len(live[b]) {
				changed = true
				live[b] = cur
			}
		}
	}
	return live
}

func NewExec(l *Loaded) *Exec {
	c := NewCtx()
	x := &Exec{C: c, Prog: l.Prog, L: l, boxIdx: map[string]int{}, fninfo: map[*ssa.Function]*fnInfo{}, Obls: map[string]*Obligation{},
		counts: map[string]int{}, Trusted: map[string]bool{}, Inlined: map[*ssa.Function]bool{}, Assume: map[string]bool{}, globObj: map[*ssa.Global]int{}, rtypes: map[string]int{}, rtypeOf: map[int]types.Type{},
		cutLoops: map[*ssa.BasicBlock]bool{}, unroll: map[*ssa.BasicBlock]int{}, summaries: map[string]*ssa.Function{}, used: map[string]bool{},
		loopRep: map[string]*LoopReport{}, feasMS: time.Second, oblMS: 2 * time.Second, goCalls: map[string]bool{}, hardIf: map[*ssa.BasicBlock]int{}, typeIDs: map[string]uint64{}}
	if os.Getenv("VGO_STACK") != "" {
		dbgExec = x
	}
	x.S = NewSolver(c)
	x.global = &State{heap: map[int]*Obj{}, regions: map[string][]regionEnt{}, ghost: map[string]Val{}, escaped: map[string][]int{}}
	return x
}

func (x *Exec) checkDeadline() {
	if !x.Deadline.IsZero() && time.Now().After(x.Deadline) {
		panic(unsupported("time limit of the harness reached"))
	}
}

// feasible reports whether the path condition with t may be satisfiable.
func (x *Exec) feasible(st *State, t *Term) bool {
	if t == x.C.False {
		return false
	}
	ts := st.pcTerms()
	for _, p := range ts {
		if p == t {
			return true
		}
	}
	nt := x.C.Not(t)
	for _, p := range ts {
		if p == nt {
			return false
		}
	}
	x.checkDeadline()
	return x.S.Check(x.S.relevant(ts, t), x.feasMS, false, nil) != Unsat
}

// known reports whether t may hold and whether it may not, as far as the path
// condition says so literally.
func (x *Exec) known(st *State, t *Term) (may, mayNot bool) {
	ts := map[*Term]bool{}
	for _, p := range st.pcTerms() {
		ts[p] = true
	}
	var holds func(t *Term) bool
	holds = func(t *Term) bool {
		if ts[t] {
			return true
		}
		if t.Op == OAnd {
			for _, a := range t.Args {
				if !holds(a) {
					return false
				}
			}
			return true
		}
		if t.Op == OOr {
			for _, a := range t.Args {
				if holds(a) {
					return true
				}
			}
		}
		return false
	}
	return !holds(x.C.Not(t)), !holds(t)
}

func (x *Exec) entails(st *State, t *Term) bool {
	if t == x.C.True {
		return true
	}
	return !x.feasible(st, x.C.Not(t))
}

// val evaluates an SSA operand.
func (x *Exec) val(st *State, fr *Frame, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return &PtrV{Obj: x.globalObj(st, c)}
	case *ssa.Function:
		return &FuncV{Fn: c}
	case *ssa.Builtin:
		return c
	}
	k, ok := fr.info.idx[v]
	if !ok {
		panic(unsupported("no register for %v", v))
	}
	r := fr.env[k]
	if r == nil {
		panic(unsupported("register %s of %s has no value", v.Name(), fr.fn))
	}
	return r
}

func (x *Exec) setReg(fr *Frame, v ssa.Value, r Val) { fr.env[fr.info.idx[v]] = r }

func (x *Exec) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return x.zero(c.Type())
	}
	t := c.Type()
	if _, isIface := t.Underlying().(*types.Interface); isIface {
		panic(unsupported("interface constant"))
	}
	if tp, ok := t.(*types.TypeParam); ok {
		panic(unsupported("type parameter constant %v", tp))
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return x.C.BoolC(constant.BoolVal(c.Value))
	case constant.String:
		return x.C.Str(constant.StringVal(c.Value))
	}
	if w, _, ok := intInfo(t); ok {
		iv := constant.ToInt(c.Value)
		if u, ok := constant.Uint64Val(iv); ok {
			return x.C.Const(u, w)
		}
		i, _ := constant.Int64Val(iv)
		return x.C.Const(uint64(i), w)
	}
	if w, ok := floatWidth(t); ok {
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return x.fconst(f, w)
	}
	panic(unsupported("constant %v", c))
}

func (x *Exec) globalObj(st *State, g *ssa.Global) int {
	if id, ok := x.globObj[g]; ok {
		return id
	}
	et := g.Type().Underlying().(*types.Pointer).Elem()
	var v Val
	name := g.Pkg.Pkg.Path() + "." + g.Name()
	x.objN++
	id := x.objN
	x.globObj[g] = id
	if x.L.inRepo(g.Pkg.Pkg.Path()) || strings.HasSuffix(g.Name(), "init$guard") {
		v = x.zero(et)
	} else if s := x.scalarSort(et); s != nil {
		x.Trusted["global "+name+" (treated as a fixed unknown value)"] = true
		v = x.C.Var("glob!"+name, s)
	} else if types.IsInterface(et) {
		r := x.C.Var("glob!"+name, x.C.BV(boxW))
		x.C.AddAxiom(x.C.Not(x.C.Eq(r, x.C.Const(0, boxW))))
		v = &SymIface{Ref: r}
	} else if sx, ok := et.Underlying().(*types.Struct); ok && sx.NumFields() == 0 {
		v = &StructV{}
	} else if pt, ok := et.Underlying().(*types.Pointer); ok {
		r := x.C.Var("glob!"+name, x.C.BV(boxW))
		x.C.AddAxiom(x.C.Not(x.C.Eq(r, x.C.Const(0, boxW))))
		v = &SymPtr{Ref: r, Elem: pt.Elem()}
	} else {
		v = x.freshVal(x.global, "glob!"+name, et, 0)
	}
	x.global.heap[id] = &Obj{T: et, V: v, Name: name}
	return id
}

// Call executes fn on args from st, inlining its body.
func (x *Exec) Call(st *State, fn *ssa.Function, args []Val, bind []Val) []CallOut {
	if fn.Blocks == nil {
		panic(unsupported("no body for %s", fn))
	}
	if x.depth > 60 {
		panic(unsupported("call depth exceeded at %s", fn))
	}
	rec := 0
	for _, f := range x.fnStack {
		if f == fn {
			rec++
		}
	}
	if rec > 24 {
		panic(unsupported("recursion without a contract: %s", fn))
	}
	x.Inlined[fn] = true
	info := x.info(fn)
	x.frameN++
	fr := &Frame{fn: fn, info: info, env: make([]Val, info.n), serial: x.frameN, visits: map[*ssa.BasicBlock]int{}}
	if len(args) != len(fn.Params) {
		panic(unsupported("call %s: %d args, %d params", fn, len(args), len(fn.Params)))
	}
	for i, p := range fn.Params {
		fr.env[info.idx[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[info.idx[p]] = bind[i]
	}
	base := st.pc
	x.depth++
	x.fnStack = append(x.fnStack, fn)
	defer func() { x.depth--; x.fnStack = x.fnStack[:len(x.fnStack)-1] }()
	outs := x.runBlock(st, fr, fn.Blocks[0], nil, nil)
	// run deferred calls on panics, merge returns
	var res []Out
	for _, o := range outs {
		switch o.kind {
		case oReturn:
			res = append(res, o)
		case oPanic:
			res = append(res, x.unwind(o)...)
		default:
			panic("unexpected outcome")
		}
	}
	var rets, panics []Out
	for _, o := range res {
		if o.kind == oPanic {
			panics = append(panics, o)
		} else {
			o.fr = nil
			rets = append(rets, o)
		}
	}
	rets = x.mergeOuts(base, rets, nil)
	var r []CallOut
	for _, o := range rets {
		r = append(r, CallOut{st: o.st, ret: o.ret})
	}
	for _, o := range panics {
		r = append(r, CallOut{st: o.st, p: o.p})
	}
	return r
}

// unwind runs the deferred calls of a panicking frame.
func (x *Exec) unwind(o Out) []Out {
	if len(o.fr.defers) == 0 {
		return []Out{o}
	}
	var res []Out
	fr := o.fr.clone()
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	rec := false
	_ = rec
	pi := *o.p
	outs := x.callDeferred(o.st, d, &pi)
	for _, co := range outs {
		f2 := fr.clone()
		if co.p != nil {
			res = append(res, x.unwind(Out{kind: oPanic, st: co.st, fr: f2, p: co.p})...)
			continue
		}
		if g, ok := co.st.ghost["recovered"]; ok && g == Val(true) {
			delete(co.st.ghost, "recovered")
			// remaining defers run normally, then results are read in the recover block
			cur := []Out{{kind: oStop, st: co.st, fr: f2}}
			for len(f2.defers) > 0 {
				d2 := f2.defers[len(f2.defers)-1]
				f2.defers = f2.defers[:len(f2.defers)-1]
				var nxt []Out
				for _, c := range cur {
					for _, c2 := range x.callDeferred(c.st, d2, nil) {
						if c2.p != nil {
							nxt = append(nxt, Out{kind: oPanic, st: c2.st, fr: f2, p: c2.p})
						} else {
							nxt = append(nxt, Out{kind: oStop, st: c2.st, fr: f2})
						}
					}
				}
				cur = nxt
			}
			for _, c := range cur {
				if c.kind == oPanic {
					res = append(res, c)
					continue
				}
				if f2.fn.Recover != nil {
					res = append(res, x.runBlock(c.st, f2.clone(), f2.fn.Recover, nil, nil)...)
				} else {
					res = append(res, Out{kind: oReturn, st: c.st, fr: f2, ret: x.zero(f2.fn.Signature.Results())})
				}
			}
			continue
		}
		res = append(res, x.unwind(Out{kind: oPanic, st: co.st, fr: f2, p: o.p})...)
	}
	return res
}

func (x *Exec) callDeferred(st *State, d deferred, p *panicInfo) []CallOut {
	if p != nil {
		st = st.clone()
		st.ghost["panicking"] = p
	}
	outs := x.callValue(st, d.fn, d.args, d.call, d.instr)
	for i := range outs {
		delete(outs[i].st.ghost, "panicking")
	}
	return outs
}

func (x *Exec) evalPhis(st *State, fr *Frame, b, prev *ssa.BasicBlock) {
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if pi < 0 {
			panic(unsupported("phi without predecessor"))
		}
		vals = append(vals, x.val(st, fr, ph.Edges[pi]))
		phis = append(phis, ph)
	}
	for i, ph := range phis {
		x.setReg(fr, ph, vals[i])
	}
}

// runBlock executes from the start of blk (entered from prev) up to stop.
func (x *Exec) runBlock(st *State, fr *Frame, blk, prev, stop *ssa.BasicBlock) []Out {
	if prev != nil {
		x.evalPhis(st, fr, blk, prev)
	}
	if blk == stop {
		return []Out{{kind: oStop, st: st, fr: fr}}
	}
	if fr.loopStop != nil && !fr.loopStop.blocks[blk] {
		return []Out{{kind: oExit, st: st, fr: fr, at: blk, from: prev}}
	}
	if l := fr.info.loops[blk]; l != nil && !fr.cutting[blk] {
		if prev == nil || !l.blocks[prev] {
			return x.enterLoop(st, fr, l, stop)
		}
		return x.againLoop(st, fr, l, stop)
	}
	return x.runFrom(st, fr, blk, x.firstInstr(blk), stop)
}

func (x *Exec) againLoop(st *State, fr *Frame, l *loopInfo, stop *ssa.BasicBlock) []Out {
	fr.visits[l.header]++
	lim := 70
	if u, ok := x.unroll[l.header]; ok {
		lim = u
	}
	if fr.visits[l.header] > lim && !x.constTrip(fr, l) {
		panic(cutReq{l.header, fr.serial})
	}
	if fr.visits[l.header] > 2000 {
		panic(cutReq{l.header, fr.serial})
	}
	return x.runFrom(st, fr, l.header, x.firstInstr(l.header), stop)
}

func (x *Exec) firstInstr(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (x *Exec) constTrip(fr *Frame, l *loopInfo) bool { return true }

// enterLoop first tries plain unrolling; if the loop turns out to have a
// symbolic trip count it is cut with inferred and supplied invariants.
func (x *Exec) enterLoop(st *State, fr *Frame, l *loopInfo, stop *ssa.BasicBlock) []Out {
	h := l.header
	if !x.cutLoops[h] && !x.anyMap(st, fr, h) {
		outs, ok := x.tryUnroll(st, fr, l, stop)
		if ok {
			return outs
		}
		x.cutLoops[h] = true
	}
	return x.cutLoop(st, fr, l, stop)
}

// anyMap tells whether the loop goes over a map with any number of elements.
func (x *Exec) anyMap(st *State, fr *Frame, h *ssa.BasicBlock) bool {
	it := x.rangeIter(st, fr, h)
	if it == nil || it.Str != nil || it.MapID == 0 {
		return false
	}
	return !finiteDom(st.get(it.MapID).V.(*MapObj).Dom)
}

// rangeIter is the iterator of a range loop over a map or string.
func (x *Exec) rangeIter(st *State, fr *Frame, h *ssa.BasicBlock) *IterObj {
	for _, in := range h.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if p, ok := fr.env[fr.info.idx[n.Iter]].(*PtrV); ok {
				it, _ := st.get(p.Obj).V.(*IterObj)
				return it
			}
		}
	}
	return nil
}

func finiteDom(t *Term) bool {
	switch t.Op {
	case OAStore:
		return finiteDom(t.Args[0])
	case OIte:
		return finiteDom(t.Args[1]) && finiteDom(t.Args[2])
	case OAConst:
		return true
	}
	return false
}

func (x *Exec) tryUnroll(st *State, fr *Frame, l *loopInfo, stop *ssa.BasicBlock) (outs []Out, ok bool) {
	st2, fr2 := st.clone(), fr.clone()
	fr2.visits[l.header] = 0
	dep, pure, dry, ns := x.depth, x.pure, x.dry, len(x.fnStack)
	defer func() {
		if r := recover(); r != nil {
			if c, isCut := r.(cutReq); isCut && c.header == l.header && c.serial == fr.serial {
				x.depth, x.pure, x.dry = dep, pure, dry
				x.fnStack = x.fnStack[:ns]
				outs, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	outs = x.runFrom(st2, fr2, l.header, x.firstInstr(l.header), stop)
	return outs, true
}

func (x *Exec) runFrom(st *State, fr *Frame, blk *ssa.BasicBlock, i int, stop *ssa.BasicBlock) []Out {
	for ; i < len(blk.Instrs); i++ {
		in := blk.Instrs[i]
		x.Stats.Instrs++
		if x.Stats.Instrs&1023 == 0 {
			x.checkDeadline()
		}
		switch t := in.(type) {
		case *ssa.If:
			return x.execIf(st, fr, blk, t, stop)
		case *ssa.Jump:
			return x.runBlock(st, fr, blk.Succs[0], blk, stop)
		case *ssa.Return:
			var ret Val
			switch len(t.Results) {
			case 0:
			case 1:
				ret = x.val(st, fr, t.Results[0])
			default:
				tv := &TupleV{}
				for _, r := range t.Results {
					tv.E = append(tv.E, x.val(st, fr, r))
				}
				ret = tv
			}
			x.Stats.Paths++
			return []Out{{kind: oReturn, st: st, fr: fr, ret: ret}}
		case *ssa.Panic:
			v := x.val(st, fr, t.X)
			return []Out{{kind: oPanic, st: st, fr: fr, p: &panicInfo{msg: "explicit panic", kind: "panic", where: x.where(in), val: v}}}
		case *ssa.RunDefers:
			outs := x.runDefers(st, fr)
			if len(outs) == 1 && outs[0].kind == oStop {
				st, fr = outs[0].st, outs[0].fr
				continue
			}
			var res []Out
			for _, o := range outs {
				if o.kind == oPanic {
					res = append(res, o)
				} else {
					res = append(res, x.runFrom(o.st, o.fr, blk, i+1, stop)...)
				}
			}
			return res
		}
		outs := x.step(st, fr, in)
		if len(outs) == 1 && outs[0].p == nil {
			st = outs[0].st
			if v, ok := in.(ssa.Value); ok {
				x.setReg(fr, v, outs[0].ret)
			}
			continue
		}
		var res []Out
		base := st.pc
		_ = base
		for k, o := range outs {
			f2 := fr
			if k < len(outs)-1 {
				f2 = fr.clone()
			}
			if o.p != nil {
				if o.p.where == "" {
					o.p.where = x.where(in)
				}
				res = append(res, Out{kind: oPanic, st: o.st, fr: f2, p: o.p})
				continue
			}
			if v, ok := in.(ssa.Value); ok {
				x.setReg(f2, v, o.ret)
			}
			res = append(res, x.runFrom(o.st, f2, blk, i+1, stop)...)
		}
		return res
	}
	return nil
}

func (x *Exec) runDefers(st *State, fr *Frame) []Out {
	cur := []Out{{kind: oStop, st: st, fr: fr}}
	for {
		again := false
		var nxt []Out
		for _, o := range cur {
			if o.kind == oPanic || len(o.fr.defers) == 0 {
				nxt = append(nxt, o)
				continue
			}
			again = true
			f2 := o.fr.clone()
			d := f2.defers[len(f2.defers)-1]
			f2.defers = f2.defers[:len(f2.defers)-1]
			outs := x.callDeferred(o.st, d, nil)
			for _, c := range outs {
				f3 := f2.clone()
				if c.p != nil {
					nxt = append(nxt, Out{kind: oPanic, st: c.st, fr: f3, p: c.p})
				} else {
					nxt = append(nxt, Out{kind: oStop, st: c.st, fr: f3})
				}
			}
		}
		cur = nxt
		if !again {
			return cur
		}
	}
}

func (x *Exec) where(in ssa.Instruction) string {
	fn := in.Parent()
	p := x.Prog.Fset.Position(in.Pos())
	n := fn.RelString(nil)
	if p.IsValid() {
		return fmt.Sprintf("%s (%s:%d)", n, p.Filename, p.Line)
	}
	// nearest position in the block
	return n
}

func (x *Exec) execIf(st *State, fr *Frame, blk *ssa.BasicBlock, t *ssa.If, stop *ssa.BasicBlock) []Out {
	cond := x.val(st, fr, t.Cond).(*Term)
	if prof {
		x.S.Tag = "if " + x.where(t)
	}
	if v, ok := cond.BoolConst(); ok {
		s := blk.Succs[1]
		if v {
			s = blk.Succs[0]
		}
		return x.runBlock(st, fr, s, blk, stop)
	}
	l := fr.info.inner[blk]
	exits := l != nil && (l.blocks[blk.Succs[0]] != l.blocks[blk.Succs[1]])
	ip := fr.info.ipdom[blk]
	if fr.loopStop != nil {
		ip = fr.loopStop.join(blk)
	}
	ft, ff := true, true
	if exits || !x.cheapDiamond(blk, ip) && x.hardIf[blk] < 3 {
		t0 := time.Now()
		ft = x.feasible(st, cond)
		if ft {
			ff = x.feasible(st, x.C.Not(cond))
		}
		if ft && ff && time.Since(t0) > x.feasMS/2 {
			// the solver is of no help here: follow both sides unasked from now on
			x.hardIf[blk]++
		}
	} else {
		ft, ff = x.known(st, cond)
	}
	if !ft && !ff {
		return nil
	}
	if exits && blk == l.header && ft != ff && !fr.cutting[l.header] && fr.visits[l.header] >= 2 && l.blocks[blk.Succs[0]] == ft {
		// the loop goes on for now, by a bound that is not a constant
		if _, has := x.unroll[l.header]; !has && !x.fewMore(st, fr, t) && !x.counted(st, fr, l, blk) {
			panic(cutReq{l.header, fr.serial})
		}
	}
	if !ff {
		st.assume(cond)
		return x.runBlock(st, fr, blk.Succs[0], blk, stop)
	}
	if !ft {
		st.assume(x.C.Not(cond))
		return x.runBlock(st, fr, blk.Succs[1], blk, stop)
	}
	if exits && !fr.cutting[l.header] {
		if u, has := x.unroll[l.header]; has {
			if fr.visits[l.header] > u {
				panic(cutReq{l.header, fr.serial})
			}
		} else if blk == l.header || isMainExit(l, blk) {
			if (fr.visits[l.header] > 12 || !x.fewMore(st, fr, t)) && !x.counted(st, fr, l, blk) {
				panic(cutReq{l.header, fr.serial})
			}
		} else if fr.visits[l.header] > 64 {
			panic(cutReq{l.header, fr.serial})
		}
	}
	base := st.pc
	st2, fr2 := st.clone(), fr.clone()
	st.assume(cond)
	st2.assume(x.C.Not(cond))
	if ip == nil {
		outs := x.runBlock(st, fr, blk.Succs[0], blk, stop)
		return append(outs, x.runBlock(st2, fr2, blk.Succs[1], blk, stop)...)
	}
	outs := x.runBlock(st, fr, blk.Succs[0], blk, ip)
	outs = append(outs, x.runBlock(st2, fr2, blk.Succs[1], blk, ip)...)
	var res, stops []Out
	for _, o := range outs {
		if o.kind == oStop {
			stops = append(stops, o)
		} else {
			res = append(res, o)
		}
	}
	stops = x.mergeOuts(base, stops, ip)
	for _, o := range stops {
		if ip == stop {
			res = append(res, o)
			continue
		}
		res = append(res, x.resume(o.st, o.fr, ip, blk, stop)...)
	}
	return res
}

// resume continues at the start of blk after its phis were evaluated.
func (x *Exec) resume(st *State, fr *Frame, blk, from *ssa.BasicBlock, stop *ssa.BasicBlock) []Out {
	if l := fr.info.loops[blk]; l != nil && !fr.cutting[blk] {
		if !l.blocks[from] {
			return x.enterLoop(st, fr, l, stop)
		}
		return x.againLoop(st, fr, l, stop)
	}
	return x.runFrom(st, fr, blk, x.firstInstr(blk), stop)
}

// fewMore: the comparison controlling a loop shows that only a few iterations
// remain, so the loop is unrolled.
func (x *Exec) fewMore(st *State, fr *Frame, t *ssa.If) bool {
	b, ok := t.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	w, signed, ok := intInfo(b.X.Type())
	if !ok {
		return false
	}
	lo, ok1 := x.val(st, fr, b.X).(*Term)
	hi, ok2 := x.val(st, fr, b.Y).(*Term)
	if !ok1 || !ok2 {
		return false
	}
	switch b.Op {
	case token.LSS, token.LEQ:
	case token.GTR, token.GEQ:
		lo, hi = hi, lo
	default:
		return false
	}
	lo = x.C.Add(lo, x.C.Const(8, w))
	if signed {
		return !x.feasible(st, x.C.Slt(lo, hi))
	}
	return !x.feasible(st, x.C.Ult(lo, hi))
}

// counted: another exit of the loop compares a counter whose value is known
// with a known bound, so unrolling ends there.
func (x *Exec) counted(st *State, fr *Frame, l *loopInfo, blk *ssa.BasicBlock) bool {
	if fr.visits[l.header] > 40 {
		return false
	}
	known := func(v ssa.Value) bool {
		if p, ok := v.(*ssa.Phi); ok && p.Block() == l.header {
			t, ok := fr.env[fr.info.idx[p]].(*Term)
			return ok && t.IsConst()
		}
		if _, ok := v.(*ssa.Const); ok {
			return true
		}
		if in, ok := v.(ssa.Instruction); ok && l.blocks[in.Block()] {
			return false
		}
		if i, ok := fr.info.idx[v]; ok {
			t, ok := fr.env[i].(*Term)
			return ok && t.IsConst()
		}
		return false
	}
	for b := range l.blocks {
		if b == blk || len(b.Instrs) == 0 {
			continue
		}
		t, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || l.blocks[b.Succs[0]] && l.blocks[b.Succs[1]] {
			continue
		}
		c, ok := t.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		if _, _, isInt := intInfo(c.X.Type()); isInt && known(c.X) && known(c.Y) {
			return true
		}
	}
	return false
}

// isMainExit: the loop test block of a "for cond" loop whose header only holds phis and the test.
func isMainExit(l *loopInfo, b *ssa.BasicBlock) bool { return b == l.header }

// cheapDiamond: every way from the branch to the join is short and free of
// calls and loops, so both sides are executed without asking the solver first.
func (x *Exec) cheapDiamond(b, ip *ssa.BasicBlock) bool {
	key := [2]*ssa.BasicBlock{b, ip}
	if v, ok := x.cheap[key]; ok {
		return v
	}
	if x.cheap == nil {
		x.cheap = map[[2]*ssa.BasicBlock]bool{}
	}
	n := 0
	state := map[*ssa.BasicBlock]int{}
	var visit func(s *ssa.BasicBlock) bool
	visit = func(s *ssa.BasicBlock) bool {
		if s == ip {
			return true
		}
		if s == b || state[s] == 1 {
			return false
		}
		if state[s] == 2 {
			return true
		}
		state[s] = 1
		for _, in := range s.Instrs {
			n++
			switch t := in.(type) {
			case *ssa.BinOp:
				if t.Op == token.QUO || t.Op == token.REM {
					return false
				}
			case *ssa.IndexAddr:
				if _, c := t.Index.(*ssa.Const); !c {
					return false
				}
			case *ssa.Jump, *ssa.ChangeType, *ssa.DebugRef, *ssa.Convert, *ssa.UnOp, *ssa.Store, *ssa.FieldAddr, *ssa.Field, *ssa.If, *ssa.Phi, *ssa.Return:
			default:
				return false
			}
		}
		if n > 60 {
			return false
		}
		for _, t := range s.Succs {
			if !visit(t) {
				return false
			}
		}
		state[s] = 2
		return true
	}
	r := visit(b.Succs[0]) && visit(b.Succs[1])
	x.cheap[key] = r
	return r
}

// mergeOuts joins outcomes that reached the same point where their shapes
// agree, those that parted last first.
func (x *Exec) mergeOuts(base *pcNode, outs []Out, at *ssa.BasicBlock) []Out {
	res := append([]Out(nil), outs...)
	failed := map[[2]*State]bool{}
	for len(res) > 1 {
		best, bi, bj := -1, 0, 0
		for i := range res {
			for j := i + 1; j < len(res); j++ {
				if failed[[2]*State{res[i].st, res[j].st}] {
					continue
				}
				d := 0
				if n := commonPC(res[i].st.pc, res[j].st.pc); n != nil {
					d = n.depth
				}
				if d > best {
					best, bi, bj = d, i, j
				}
			}
		}
		if best < 0 {
			break
		}
		m, ok := x.merge2(base, res[bi], res[bj], at)
		if !ok {
			failed[[2]*State{res[bi].st, res[bj].st}] = true
			continue
		}
		x.Stats.Merges++
		res[bi] = m
		res = append(res[:bj], res[bj+1:]...)
	}
	return res
}

func commonPC(a, b *pcNode) *pcNode {
	for a != b {
		if a == nil || b == nil {
			return nil
		}
		if a.depth > b.depth {
			a = a.prev
		} else if b.depth > a.depth {
			b = b.prev
		} else {
			a, b = a.prev, b.prev
		}
	}
	return a
}

func rev(ts []*Term) []*Term {
	for i, j := 0, len(ts)-1; i < j; i, j = i+1, j-1 {
		ts[i], ts[j] = ts[j], ts[i]
	}
	return ts
}

func containsAll(set, ts []*Term) bool {
	for _, t := range ts {
		ok := false
		for _, s := range set {
			if s == t {
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

type merger struct {
	x      *Exec
	g      *Term
	a, b   *State
	pa, pb map[int]int
	work   []int
}

func (x *Exec) merge2(base *pcNode, a, b Out, at *ssa.BasicBlock) (out Out, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(noMerge); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	lca := commonPC(a.st.pc, b.st.pc)
	ra, rb := rev(a.st.pcSince(lca)), rev(b.st.pcSince(lca))
	ga, gb := x.C.And(ra...), x.C.And(rb...)
	// prefer a small guard distinguishing the two
	g := ga
	found := false
	for _, t := range rb {
		if n := x.C.Not(t); containsAll(ra, conjuncts(n)) {
			g, found = n, true
			break
		}
	}
	for i := 0; i < len(ra) && !found; i++ {
		if n := x.C.Not(ra[i]); containsAll(rb, conjuncts(n)) {
			g, found = ra[i], true
		}
	}
	if !found {
		inb := map[int]bool{}
		for _, t := range rb {
			inb[t.ID] = true
		}
		var only []*Term
		for _, t := range ra {
			if !inb[t.ID] {
				only = append(only, t)
			}
		}
		g = x.C.And(only...)
	}
	m := &merger{x: x, g: g, a: a.st, b: b.st, pa: map[int]int{}, pb: map[int]int{}}
	n := a.st.clone()
	out = Out{kind: a.kind, st: n}
	if a.fr != nil {
		fr := a.fr.clone()
		if len(a.fr.defers) != len(b.fr.defers) {
			return out, false
		}
		live := a.fr.info.live[at]
		for i := range fr.env {
			va, vb := a.fr.env[i], b.fr.env[i]
			if va == vb {
				continue
			}
			if va == nil || vb == nil || !live[i] {
				fr.env[i] = nil
				continue
			}
			fr.env[i] = m.merge(va, vb)
		}
		for k, v := range b.fr.visits {
			if v > fr.visits[k] {
				fr.visits[k] = v
			}
		}
		out.fr = fr
	}
	if a.ret != nil || b.ret != nil {
		out.ret = m.merge(a.ret, b.ret)
	}
	for k, va := range a.st.ghost {
		vb, has := b.st.ghost[k]
		if !has {
			return out, false
		}
		if va != vb {
			n.ghost[k] = m.merge(va, vb)
		}
	}
	if len(a.st.ghost) != len(b.st.ghost) {
		return out, false
	}
	for k, v := range a.st.regver {
		if b.st.regver[k] != v {
			return out, false
		}
	}
	if len(a.st.regver) != len(b.st.regver) || len(a.st.invs) != len(b.st.invs) {
		return out, false
	}
	// an unknown object seen on one side only keeps its initial contents on the other
	onlyIn := func(p, q *State, k string) []regionEnt {
		var r []regionEnt
		for _, e := range p.regions[k] {
			found := false
			for _, f := range q.regions[k] {
				if e == f {
					found = true
				}
			}
			if !found {
				r = append(r, e)
			}
		}
		return r
	}
	for k := range a.st.regions {
		oa, ob := onlyIn(a.st, b.st, k), onlyIn(b.st, a.st, k)
		if len(oa) > 0 && len(ob) > 0 {
			return out, false
		}
	}
	for k := range a.st.regions {
		for _, e := range onlyIn(a.st, b.st, k) {
			o := a.st.get(e.obj)
			if o.V != o.Init {
				no := *o
				no.V = m.merge(o.V, o.Init)
				n.heap[e.obj] = &no
			}
		}
	}
	regB := map[int]Val{}
	for k := range b.st.regions {
		for _, e := range onlyIn(b.st, a.st, k) {
			o := b.st.get(e.obj)
			if o.V != o.Init {
				regB[e.obj] = m.merge(o.Init, o.V)
			}
		}
	}
	// objects known to both
	for id, ob := range b.st.heap {
		oa := a.st.get(id)
		if oa == nil {
			continue
		}
		if oa == ob || oa.V == ob.V {
			continue
		}
		no := *oa
		no.V = m.merge(oa.V, ob.V)
		n.heap[id] = &no
	}
	for id, oa := range a.st.heap {
		if _, done := b.st.heap[id]; done {
			continue
		}
		ob := b.st.get(id)
		if ob == nil || ob == oa || ob.V == oa.V {
			continue
		}
		no := *oa
		no.V = m.merge(oa.V, ob.V)
		n.heap[id] = &no
	}
	for len(m.work) > 0 {
		id := m.work[len(m.work)-1]
		m.work = m.work[:len(m.work)-1]
		oa, ob := a.st.heap[id], b.st.heap[m.pa[id]]
		no := *oa
		if oa.V != ob.V {
			no.V = m.merge(oa.V, ob.V)
		}
		n.heap[id] = &no
	}
	for id, ob := range b.st.heap {
		if _, has := a.st.heap[id]; has {
			continue
		}
		if a.st.get(id) != nil {
			continue
		}
		if _, paired := m.pb[id]; paired {
			continue
		}
		if v, isReg := regB[id]; isReg {
			no := *ob
			no.V = v
			n.heap[id] = &no
			continue
		}
		if len(m.pb) > 0 {
			no := *ob
			no.V = renameObjs(ob.V, m.pb)
			n.heap[id] = &no
		} else {
			n.heap[id] = ob
		}
	}
	weak := map[int]bool{}
	for _, s := range []*State{a.st, b.st} {
		for o := range s.weak {
			weak[o] = true
		}
	}
	for k := range a.st.regions {
		for _, e := range onlyIn(a.st, b.st, k) {
			weak[e.obj] = true
		}
	}
	for k := range b.st.regions {
		for _, e := range onlyIn(b.st, a.st, k) {
			weak[e.obj] = true
		}
	}
	if len(weak) > 0 {
		n.weak = weak
	}
	// regions and escapes: union
	for k, v := range b.st.regions {
		for _, e := range v {
			found := false
			for _, f := range n.regions[k] {
				if f == e {
					found = true
				}
			}
			if !found {
				n.regions[k] = append(n.regions[k], e)
			}
		}
	}
	for k, v := range b.st.escaped {
		for _, e := range v {
			found := false
			for _, f := range n.escaped[k] {
				if f == e {
					found = true
				}
			}
			if !found {
				n.escaped[k] = append(n.escaped[k], e)
			}
		}
	}
	n.pc = base
	n.pc = lca
	n.assume(x.C.Or(ga, gb))
	return out, true
}

type noMerge struct{}

func (m *merger) pair(oa, ob int) int {
	if oa == ob {
		return oa
	}
	if oa == 0 || ob == 0 {
		panic(noMerge{})
	}
	if p, ok := m.pa[oa]; ok {
		if p != ob {
			panic(noMerge{})
		}
		return oa
	}
	if _, ok := m.pb[ob]; ok {
		panic(noMerge{})
	}
	if m.b.get(oa) != nil || m.a.get(ob) != nil {
		panic(noMerge{})
	}
	a, b := m.a.heap[oa], m.b.heap[ob]
	if a == nil || b == nil {
		panic(noMerge{})
	}
	if !types.Identical(a.T, b.T) {
		panic(noMerge{})
	}
	if _, boxed := m.x.boxIdx[fmt.Sprintf("p%d", ob)]; boxed {
		panic(noMerge{})
	}
	if _, boxed := m.x.boxIdx[fmt.Sprintf("p%d", oa)]; boxed {
		panic(noMerge{})
	}
	m.pa[oa] = ob
	m.pb[ob] = oa
	m.work = append(m.work, oa)
	return oa
}

func (m *merger) path(a, b []PathEl) []PathEl {
	if len(a) != len(b) {
		panic(noMerge{})
	}
	r := make([]PathEl, len(a))
	for i := range a {
		if (a[i].Idx == nil) != (b[i].Idx == nil) || (a[i].Idx == nil && a[i].Fld != b[i].Fld) {
			panic(noMerge{})
		}
		r[i] = a[i]
		if a[i].Idx != nil {
			r[i].Idx = m.x.C.Ite(m.g, a[i].Idx, b[i].Idx)
		}
	}
	return r
}

func (m *merger) merge(a, b Val) Val {
	if a == b {
		return a
	}
	x := m.x
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok || p.Sort != q.Sort {
			panic(noMerge{})
		}
		if p.Sort.Kind == SArr {
			return x.C.AIte(m.g, p, q)
		}
		return x.C.Ite(m.g, p, q)
	case *StructV:
		q, ok := b.(*StructV)
		if !ok || len(p.F) != len(q.F) {
			panic(noMerge{})
		}
		r := &StructV{F: make([]Val, len(p.F))}
		for i := range p.F {
			r.F[i] = m.merge(p.F[i], q.F[i])
		}
		return r
	case *ArrayV:
		q, ok := b.(*ArrayV)
		if !ok || len(p.E) != len(q.E) {
			panic(noMerge{})
		}
		r := &ArrayV{E: make([]Val, len(p.E))}
		for i := range p.E {
			r.E[i] = m.merge(p.E[i], q.E[i])
		}
		return r
	case *TupleV:
		q, ok := b.(*TupleV)
		if !ok || len(p.E) != len(q.E) {
			panic(noMerge{})
		}
		r := &TupleV{E: make([]Val, len(p.E))}
		for i := range p.E {
			r.E[i] = m.merge(p.E[i], q.E[i])
		}
		return r
	case *PtrV:
		q, ok := b.(*PtrV)
		if !ok {
			panic(noMerge{})
		}
		return &PtrV{Obj: m.pair(p.Obj, q.Obj), Path: m.path(p.Path, q.Path)}
	case *SymPtr:
		q, ok := b.(*SymPtr)
		if !ok {
			panic(noMerge{})
		}
		return &SymPtr{Ref: x.C.Ite(m.g, p.Ref, q.Ref), Elem: p.Elem}
	case *SymSlice:
		q, ok := b.(*SymSlice)
		if !ok {
			panic(noMerge{})
		}
		return &SymSlice{Ref: x.C.Ite(m.g, p.Ref, q.Ref), Elem: p.Elem}
	case *SliceV:
		q, ok := b.(*SliceV)
		if !ok {
			panic(noMerge{})
		}
		return &SliceV{Obj: m.pair(p.Obj, q.Obj), Off: x.C.Ite(m.g, p.Off, q.Off), Len: x.C.Ite(m.g, p.Len, q.Len), Cap: x.C.Ite(m.g, p.Cap, q.Cap), Elem: p.Elem}
	case *MapV:
		q, ok := b.(*MapV)
		if !ok {
			panic(noMerge{})
		}
		return &MapV{Obj: m.pair(p.Obj, q.Obj)}
	case *ChanV:
		q, ok := b.(*ChanV)
		if !ok || q.Obj != p.Obj {
			panic(noMerge{})
		}
		return p
	case *IfaceV:
		switch q := b.(type) {
		case *IfaceV:
			if p.T == nil && q.T == nil {
				return p
			}
			if p.T == nil || q.T == nil || !types.Identical(p.T, q.T) {
				panic(noMerge{})
			}
			return &IfaceV{T: p.T, V: m.merge(p.V, q.V)}
		case *SymIface:
			if p.T == nil {
				return &SymIface{Ref: x.C.Ite(m.g, x.C.Const(0, boxW), q.Ref)}
			}
		}
		panic(noMerge{})
	case *SymIface:
		switch q := b.(type) {
		case *SymIface:
			return &SymIface{Ref: x.C.Ite(m.g, p.Ref, q.Ref)}
		case *IfaceV:
			if q.T == nil {
				return &SymIface{Ref: x.C.Ite(m.g, p.Ref, x.C.Const(0, boxW))}
			}
		}
		panic(noMerge{})
	case *FuncV:
		q, ok := b.(*FuncV)
		if !ok || p.Fn != q.Fn || p.Mod != q.Mod || len(p.Bind) != len(q.Bind) || (p.Ext == nil) != (q.Ext == nil) || p.Ext != nil || p.Sym != q.Sym {
			panic(noMerge{})
		}
		r := &FuncV{Fn: p.Fn, Mod: p.Mod, Sym: p.Sym}
		for i := range p.Bind {
			r.Bind = append(r.Bind, m.merge(p.Bind[i], q.Bind[i]))
		}
		if p.Recv != nil || q.Recv != nil {
			if p.Recv == nil || q.Recv == nil {
				panic(noMerge{})
			}
			r.Recv = m.merge(p.Recv, q.Recv)
		}
		return r
	case *SymArr:
		q, ok := b.(*SymArr)
		if !ok || len(p.Leaves) != len(q.Leaves) {
			panic(noMerge{})
		}
		r := &SymArr{Elem: p.Elem}
		for i := range p.Leaves {
			r.Leaves = append(r.Leaves, x.C.AIte(m.g, p.Leaves[i], q.Leaves[i]))
		}
		if p.N == q.N {
			r.N = p.N
		} else if p.N != nil && q.N != nil {
			r.N = x.C.Ite(m.g, p.N, q.N)
		}
		return r
	case *MapObj:
		q, ok := b.(*MapObj)
		if !ok || len(p.Vals) != len(q.Vals) {
			panic(noMerge{})
		}
		r := &MapObj{KT: p.KT, VT: p.VT, Dom: x.C.AIte(m.g, p.Dom, q.Dom), Len: x.C.Ite(m.g, p.Len, q.Len)}
		for i := range p.Vals {
			r.Vals = append(r.Vals, x.C.AIte(m.g, p.Vals[i], q.Vals[i]))
		}
		return r
	case *IterObj:
		q, ok := b.(*IterObj)
		if !ok || p.MapID != q.MapID || p.Str != q.Str {
			panic(noMerge{})
		}
		r := *p
		if p.Visited != nil {
			r.Visited = x.C.AIte(m.g, p.Visited, q.Visited)
			r.Order = x.C.AIte(m.g, p.Order, q.Order)
			if p.Dom != q.Dom {
				r.Dom = nil
			}
		}
		if p.Pos != nil {
			r.Pos = x.C.Ite(m.g, p.Pos, q.Pos)
		}
		return &r
	}
	panic(noMerge{})
}

func renameObjs(v Val, mp map[int]int) Val {
	rn := func(o int) int {
		if n, ok := mp[o]; ok {
			return n
		}
		return o
	}
	switch p := v.(type) {
	case *PtrV:
		return &PtrV{Obj: rn(p.Obj), Path: p.Path}
	case *SliceV:
		c := *p
		c.Obj = rn(p.Obj)
		return &c
	case *MapV:
		return &MapV{Obj: rn(p.Obj)}
	case *StructV:
		r := &StructV{}
		for _, f := range p.F {
			r.F = append(r.F, renameObjs(f, mp))
		}
		return r
	case *ArrayV:
		r := &ArrayV{}
		for _, f := range p.E {
			r.E = append(r.E, renameObjs(f, mp))
		}
		return r
	case *IfaceV:
		if p.T == nil {
			return p
		}
		return &IfaceV{T: p.T, V: renameObjs(p.V, mp)}
	case *FuncV:
		c := *p
		c.Bind = nil
		for _, f := range p.Bind {
			c.Bind = append(c.Bind, renameObjs(f, mp))
		}
		if p.Recv != nil {
			c.Recv = renameObjs(p.Recv, mp)
		}
		return &c
	}
	return v
}

// Obligations

func (x *Exec) oblName(name string) string { return name }

func (x *Exec) record(name, kind, where string) *Obligation {
	o := x.Obls[name]
	if o == nil {
		o = &Obligation{Name: name, Kind: kind, Where: where, Status: "discharged"}
		x.Obls[name] = o
		x.oblOrder = append(x.oblOrder, name)
	}
	return o
}

// prove checks cond under the path condition as a named obligation.
func (x *Exec) prove(st *State, name, kind, where string, cond *Term) {
	if x.dry > 0 {
		return
	}
	if prof {
		x.S.Tag = "prove " + name
	}
	o := x.record(name, kind, where)
	if !o.Reach {
		// the obligation must be reachable at least once, or it proves nothing
		if x.S.Check(st.pcTerms(), x.oblMS, true, nil) == Sat {
			o.Reach = true
		}
	}
	if cond == x.C.True {
		x.counts["checks"]++
		x.counts["discharged"]++
		x.counts["by simplification"]++
		return
	}
	if cond.Op == OAnd {
		s := st.clone()
		for _, a := range cond.Args {
			x.proveOne(s, o, a)
			s.assume(a)
		}
		return
	}
	x.proveOne(st, o, cond)
}

func (x *Exec) proveOne(st *State, o *Obligation, cond *Term) {
	x.counts["checks"]++
	pc := st.pcTerms()
	ts := append(pc[:len(pc):len(pc)], x.C.Not(cond))
	r := x.S.Check(x.S.relevant(pc, x.C.Not(cond)), x.oblMS, true, nil)
	if r == Sat {
		r = x.S.Check(ts, x.oblMS, true, nil)
	}
	switch r {
	case Unsat:
		x.counts["discharged"]++
		return
	case Sat:
		x.counts["failed"]++
		if o.Status != "failed" {
			o.Status = "failed"
			o.Detail = "the solver found an assignment violating " + x.C.Show(cond)
			o.Model = x.model(st, ts)
			if os.Getenv("VGO_DEBUG") != "" {
				x.dumpFail(st, cond)
			}
		}
	default:
		x.counts["unknown"]++
		if o.Status == "discharged" {
			o.Status = "unknown"
			o.Detail = "no back end decided " + x.C.Show(cond)
		}
	}
}

func (x *Exec) dumpFail(st *State, cond *Term) {
	fmt.Fprintln(os.Stderr, "  FAIL cond:", x.C.show(cond, 14))
	for _, t := range st.pcTerms() {
		fmt.Fprintln(os.Stderr, "    pc:", x.C.show(t, 10))
	}
}

// check splits on a run-time check: the failing side becomes a panic outcome,
// which counts as an obligation when it is not recovered.
func (x *Exec) check(st *State, ok *Term, kind, msg string, in ssa.Instruction) (cont bool, outs []CallOut) {
	where := ""
	if in != nil {
		where = x.where(in)
	}
	if ok == x.C.True {
		if x.dry == 0 && x.pure == 0 {
			x.counts["checks"]++
			x.counts["discharged"]++
			x.counts["by simplification"]++
		}
		return true, nil
	}
	if prof {
		x.S.Tag = "check " + kind + " " + where
	}
	if x.entails(st, ok) {
		if x.dry == 0 && x.pure == 0 {
			x.counts["checks"]++
			x.counts["discharged"]++
		}
		return true, nil
	}
	bad := st.clone()
	bad.assume(x.C.Not(ok))
	outs = append(outs, CallOut{st: bad, p: &panicInfo{msg: msg, kind: kind, where: where}})
	if !x.feasible(st, ok) {
		return false, outs
	}
	st.assume(ok)
	return true, outs
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
