package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// head is the generalised state at a loop header.
type head struct {
	st   *State
	fr   *Frame
	vars map[int]bool // fresh terms introduced by generalisation
	objs map[int]bool // fresh objects introduced by generalisation
	memo map[[2]int]int
	refs map[int]bool // fresh symbolic references
	vers map[string]bool
}

// cutLoop replaces a loop by an arbitrary iteration constrained by invariants.
func (x *Exec) cutLoop(st *State, fr *Frame, l *loopInfo, stop *ssa.BasicBlock) []Out {
	x.checkDeadline()
	x.Stats.Loops++
	h := &head{st: st.clone(), fr: fr.clone(), vars: map[int]bool{}, objs: map[int]bool{}, memo: map[[2]int]int{}, refs: map[int]bool{}, vers: map[string]bool{}}
	cands := x.candidates(st, fr, l)
	name := fmt.Sprintf("%s loop at block %d", fr.fn.RelString(nil), l.header.Index)
	// find what the loop changes; a path wrongly taken for feasible here only widens the head
	feas := x.feasMS
	x.feasMS = 40 * time.Millisecond
	var outs []Out
	for round := 0; ; round++ {
		if round > 12 {
			panic(unsupported("no stable loop state for %s", name))
		}
		x.dry++
		outs = x.iter(h.st.clone(), h.fr, l)
		x.dry--
		if os.Getenv("VGO_LOOP") != "" {
			fmt.Fprintln(os.Stderr, name, "round", round, len(outs))
		}
		changed := false
		for _, o := range outs {
			if o.kind == oStop {
				if x.generalise(h, o, l) {
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	x.feasMS = feas
	cands = append(cands, x.frameCandidates(st, h)...)
	cands = append(cands, x.stepCandidates(st, fr, l, h, outs)...)
	// candidate invariants that hold on entry
	var keep []*cand
	for _, c := range cands {
		t := c.eval(st, fr)
		if t == nil {
			continue
		}
		if x.holdsFor(st, t) {
			keep = append(keep, c)
		} else if os.Getenv("VGO_LOOP") != "" {
			fmt.Fprintln(os.Stderr, name, "not on entry:", c.name)
		}
	}
	total := len(cands)
	for {
		hs := h.st.clone()
		ok := true
		for _, c := range keep {
			t := c.eval(hs, h.fr)
			if t == nil {
				ok = false
				c.drop = true
				continue
			}
			hs.assume(t)
		}
		if !ok {
			keep = prune(keep)
			continue
		}
		x.dry++
		outs := x.iter(hs, h.fr, l)
		x.dry--
		dropped := false
		type open struct {
			c  *cand
			st *State
			t  *Term
		}
		var undecided []open
		drop := func(c *cand, st *State, t *Term) {
			c.drop = true
			dropped = true
			if os.Getenv("VGO_LOOP") != "" {
				fmt.Fprintln(os.Stderr, name, "not preserved:", c.name)
				if os.Getenv("VGO_LOOP") == "2" && t != nil {
					x.dumpFail(st, t)
				}
			}
		}
		for _, o := range outs {
			if o.kind != oStop {
				continue
			}
			for _, c := range keep {
				if c.drop {
					continue
				}
				t := c.eval(o.st, o.fr)
				if t == nil {
					drop(c, o.st, t)
					continue
				}
				switch x.decide(o.st, t) {
				case Unsat:
				case Sat:
					drop(c, o.st, t)
				default:
					undecided = append(undecided, open{c, o.st, t})
				}
			}
		}
		if !dropped {
			// candidates the solver gave up on get the whole portfolio, one at a time
			for _, u := range undecided {
				if !u.c.drop && x.S.Check(x.S.relevant(u.st.pcTerms(), x.C.Not(u.t)), 4*time.Second, true, nil) != Unsat {
					drop(u.c, u.st, u.t)
				}
			}
		}
		// further changes seen under the assumptions are impossible (fewer paths)
		if !dropped {
			// final run, obligations on
			if x.dry == 0 {
				rep := &LoopReport{Fn: name, Cands: total}
				for _, c := range keep {
					rep.Kept = append(rep.Kept, c.name)
				}
				sort.Strings(rep.Kept)
				x.loopRep[name] = rep
				x.Stats.Cands += total
				x.Stats.Kept += len(keep)
				x.counts["invariant checks"] += 2 * len(keep)
				x.counts["checks"] += 2 * len(keep)
				x.counts["discharged"] += 2 * len(keep)
			}
			if os.Getenv("VGO_LOOP") != "" {
				for _, c := range keep {
					fmt.Fprintln(os.Stderr, name, "kept:", c.name)
				}
			}
			hs2 := h.st.clone()
			for _, c := range keep {
				hs2.assume(c.eval(hs2, h.fr))
			}
			base := hs2.pc
			outs = x.iter(hs2, h.fr, l)
			var res []Out
			exits := map[*ssa.BasicBlock][]Out{}
			var order []*ssa.BasicBlock
			for _, o := range outs {
				switch o.kind {
				case oStop:
				case oExit:
					if _, ok := exits[o.at]; !ok {
						order = append(order, o.at)
					}
					exits[o.at] = append(exits[o.at], o)
				default:
					o.fr = x.restore(o.fr, fr)
					res = append(res, o)
				}
			}
			for _, b := range order {
				for _, o := range x.mergeOuts(base, exits[b], b) {
					f := x.restore(o.fr, fr)
					if b == stop {
						res = append(res, Out{kind: oStop, st: o.st, fr: f})
						continue
					}
					if f.loopStop != nil && !f.loopStop.blocks[b] {
						res = append(res, Out{kind: oExit, st: o.st, fr: f, at: b, from: l.header})
						continue
					}
					res = append(res, x.resume(o.st, f, b, l.header, stop)...)
				}
			}
			return res
		}
		keep = prune(keep)
	}
}

func (x *Exec) holdsFor(st *State, t *Term) bool { return x.decide(st, t) == Unsat }

// decide is Unsat when the path condition implies t.
func (x *Exec) decide(st *State, t *Term) Result {
	if t == x.C.True {
		return Unsat
	}
	x.checkDeadline()
	return x.S.Check(x.S.relevant(st.pcTerms(), x.C.Not(t)), x.feasMS*2, false, nil)
}

func prune(cs []*cand) []*cand {
	var r []*cand
	for _, c := range cs {
		if !c.drop {
			r = append(r, c)
		}
	}
	return r
}

func (x *Exec) restore(f, outer *Frame) *Frame {
	n := f.clone()
	n.loopStop = outer.loopStop
	n.cutting = outer.cutting
	return n
}

// iter runs the loop body once from the header.
func (x *Exec) iter(st *State, fr *Frame, l *loopInfo) []Out {
	f := fr.clone()
	f.loopStop = l
	f.cutting = map[*ssa.BasicBlock]bool{l.header: true}
	for k := range fr.cutting {
		f.cutting[k] = true
	}
	return x.runFrom(st, f, l.header, x.firstInstr(l.header), l.header)
}

// generalise widens the head so that it covers the back-edge outcome o.
func (x *Exec) generalise(h *head, o Out, l *loopInfo) bool {
	changed := false
	for _, in := range l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		i := h.fr.info.idx[ph]
		n := x.gen(h, o.st, ph.Type(), h.fr.env[i], o.fr.env[i], ph.Comment)
		if n != h.fr.env[i] {
			h.fr.env[i] = n
			changed = true
		}
	}
	// heap: every object that exists at the head
	ids := map[int]bool{}
	for s := h.st; s != nil; s = s.base {
		for id := range s.heap {
			ids[id] = true
		}
	}
	for id := range ids {
		ho := h.st.get(id)
		no := o.st.get(id)
		if no == nil || no == ho {
			continue
		}
		if h.objs[id] && !isCell(ho.V) {
			continue
		}
		n := x.gen(h, o.st, ho.T, ho.V, no.V, ho.Name)
		if n != ho.V {
			h.st.set(id, n)
			changed = true
		}
	}
	for k, v := range o.st.ghost {
		if hv, ok := h.st.ghost[k]; ok && hv != v {
			if t, ok := hv.(*Term); ok && !h.vars[t.ID] {
				f := x.C.Fresh("ghost", t.Sort)
				h.vars[f.ID] = true
				h.st.ghost[k] = f
				changed = true
			}
		}
	}
	// unknown objects changed in the body have arbitrary contents at the head
	for tk, es := range o.st.regions {
		for _, e := range es {
			known := false
			for _, f := range h.st.regions[tk] {
				if f == e {
					known = true
				}
			}
			if known || h.vers[tk] {
				continue
			}
			if ob := o.st.get(e.obj); ob.V != ob.Init {
				nv := map[string]string{}
				for k, v := range h.st.regver {
					nv[k] = v
				}
				x.ghostN++
				nv[tk] = fmt.Sprintf("~%d", x.ghostN)
				h.st.regver = nv
				h.vers[tk] = true
				changed = true
			}
		}
	}
	return changed
}

func isCell(v Val) bool {
	switch v.(type) {
	case *SymArr:
		return false
	}
	return true
}

func (x *Exec) gen(h *head, ns *State, t types.Type, a, b Val, name string) Val {
	if a == b {
		return a
	}
	if name == "" {
		name = "loop"
	}
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok || q == p || h.vars[p.ID] {
			return a
		}
		f := x.C.Fresh(name, p.Sort)
		h.vars[f.ID] = true
		return f
	case *StructV:
		q := b.(*StructV)
		var n *StructV
		u, _ := t.Underlying().(*types.Struct)
		for i := range p.F {
			var ft types.Type
			fn := name
			if u != nil {
				ft = u.Field(i).Type()
				fn = name + "." + u.Field(i).Name()
			}
			v := x.gen(h, ns, ft, p.F[i], q.F[i], fn)
			if v != p.F[i] {
				if n == nil {
					n = &StructV{F: append([]Val(nil), p.F...)}
				}
				n.F[i] = v
			}
		}
		if n != nil {
			return n
		}
		return a
	case *ArrayV:
		q, ok := b.(*ArrayV)
		if !ok {
			break
		}
		if len(p.E) != len(q.E) {
			panic(unsupported("array object changes size"))
		}
		var n *ArrayV
		var et types.Type
		if t != nil {
			et = elemType(t)
		}
		for i := range p.E {
			v := x.gen(h, ns, et, p.E[i], q.E[i], fmt.Sprintf("%s[%d]", name, i))
			if v != p.E[i] {
				if n == nil {
					n = &ArrayV{E: append([]Val(nil), p.E...)}
				}
				n.E[i] = v
			}
		}
		if n != nil {
			return n
		}
		return a
	case *TupleV:
		return a
	case *SliceV:
		q, ok := b.(*SliceV)
		if !ok {
			if s, isS := b.(*SymSlice); isS {
				q = x.materSlice(ns, s)
			} else {
				panic(unsupported("slice generalised with %T", b))
			}
		}
		ft := func(u, v *Term, nm string) *Term {
			if u == v || h.vars[u.ID] {
				return u
			}
			f := x.C.Fresh(name+nm, u.Sort)
			h.vars[f.ID] = true
			return f
		}
		if h.objs[p.Obj] {
			return a // already arbitrary
		}
		if p.Obj == q.Obj {
			n := &SliceV{Obj: p.Obj, Off: ft(p.Off, q.Off, ".off"), Len: ft(p.Len, q.Len, ".len"), Cap: ft(p.Cap, q.Cap, ".cap"), Elem: p.Elem}
			if n.Off == p.Off && n.Len == p.Len && n.Cap == p.Cap {
				return a
			}
			x.assumeHead(h, x.C.And(x.C.Ult(n.Len, x.C.Const(maxLen, 64)), x.C.Ule(n.Len, n.Cap), x.C.Ult(n.Cap, x.C.Const(maxLen, 64)), x.C.Ult(n.Off, x.C.Const(maxLen, 64))))
			return n
		}
		// different arrays: an arbitrary slice
		k := [2]int{p.Obj, q.Obj}
		ns2 := x.freshSlice(h.st, name, p.Elem)
		if o, ok := h.memo[k]; ok {
			ns2.Obj = o
		} else {
			h.memo[k] = ns2.Obj
		}
		h.objs[ns2.Obj] = true
		h.vars[ns2.Len.ID] = true
		h.vars[ns2.Cap.ID] = true
		return ns2
	case *SymSlice:
		panic(unsupported("opaque slice changes in loop"))
	case *PtrV:
		q, ok := b.(*PtrV)
		if ok && p.Obj == q.Obj && len(p.Path) == len(q.Path) {
			same := true
			r := &PtrV{Obj: p.Obj, Path: append([]PathEl(nil), p.Path...)}
			for i := range p.Path {
				if p.Path[i].Idx != nil && p.Path[i].Idx != q.Path[i].Idx {
					if h.vars[p.Path[i].Idx.ID] {
						continue
					}
					f := x.C.Fresh(name+".idx", x.C.BV(64))
					h.vars[f.ID] = true
					r.Path[i].Idx = f
					same = false
				} else if p.Path[i].Idx == nil && p.Path[i].Fld != q.Path[i].Fld {
					panic(unsupported("pointer changes field in loop"))
				}
			}
			if same {
				return a
			}
			return r
		}
		pt, isP := t.Underlying().(*types.Pointer)
		if t == nil || !isP {
			panic(unsupported("pointer changes in loop"))
		}
		x.box(h.st, t, p)
		if ok && h.st.get(q.Obj) != nil {
			x.box(h.st, t, q)
		}
		f := x.C.Fresh(name, x.C.BV(boxW))
		h.refs[f.ID] = true
		return &SymPtr{Ref: f, Elem: pt.Elem()}
	case *SymPtr:
		if h.refs[p.Ref.ID] {
			return a
		}
		if q, ok := b.(*SymPtr); ok && q.Ref == p.Ref {
			return a
		}
		f := x.C.Fresh(name, x.C.BV(boxW))
		h.refs[f.ID] = true
		return &SymPtr{Ref: f, Elem: p.Elem}
	case *IfaceV:
		if q, ok := b.(*IfaceV); ok && p.T != nil && q.T != nil && types.Identical(p.T, q.T) {
			v := x.gen(h, ns, p.T, p.V, q.V, name)
			if v == p.V {
				return a
			}
			return &IfaceV{T: p.T, V: v}
		}
		f := x.C.Fresh(name, x.C.BV(boxW))
		h.refs[f.ID] = true
		return &SymIface{Ref: f}
	case *SymIface:
		if h.refs[p.Ref.ID] {
			return a
		}
		f := x.C.Fresh(name, x.C.BV(boxW))
		h.refs[f.ID] = true
		return &SymIface{Ref: f}
	case *MapV:
		if q, ok := b.(*MapV); ok && q.Obj == p.Obj {
			return a
		}
		panic(unsupported("map variable changes in loop"))
	case *FuncV:
		return a
	case *ChanV:
		return a
	case *SymArr:
		q, ok := b.(*SymArr)
		if !ok {
			panic(unsupported("array representation changes in loop"))
		}
		var n *SymArr
		for i := range p.Leaves {
			if p.Leaves[i] != q.Leaves[i] && !h.vars[p.Leaves[i].ID] {
				if n == nil {
					n = &SymArr{Elem: p.Elem, N: p.N, Leaves: append([]*Term(nil), p.Leaves...)}
				}
				f := x.C.Fresh(name, p.Leaves[i].Sort)
				h.vars[f.ID] = true
				n.Leaves[i] = f
			}
		}
		if n != nil {
			return n
		}
		return a
	case *MapObj:
		q := b.(*MapObj)
		if h.vars[p.Dom.ID] && allVars(h, p.Vals) {
			return a
		}
		n := *p
		n.Vals = append([]*Term(nil), p.Vals...)
		ch := false
		if p.Dom != q.Dom && !h.vars[p.Dom.ID] {
			n.Dom = x.C.Fresh(name+".dom", p.Dom.Sort)
			h.vars[n.Dom.ID] = true
			ch = true
		}
		for i := range p.Vals {
			if p.Vals[i] != q.Vals[i] && !h.vars[p.Vals[i].ID] {
				n.Vals[i] = x.C.Fresh(name+".val", p.Vals[i].Sort)
				h.vars[n.Vals[i].ID] = true
				ch = true
			}
		}
		if p.Len != q.Len && !h.vars[p.Len.ID] {
			n.Len = x.C.Fresh(name+".len", p.Len.Sort)
			h.vars[n.Len.ID] = true
			x.assumeHead(h, x.C.Ult(n.Len, x.C.Const(maxLen, 64)))
			ch = true
		}
		if ch {
			return &n
		}
		return a
	case *IterObj:
		q := b.(*IterObj)
		n := *p
		ch := false
		if p.Visited != nil && p.Visited != q.Visited && !h.vars[p.Visited.ID] {
			n.Visited = x.C.Fresh("visited", p.Visited.Sort)
			n.Order = x.C.Fresh("order", p.Order.Sort)
			n.Pos = x.C.Fresh("visits", p.Pos.Sort)
			h.vars[n.Visited.ID] = true
			h.vars[n.Pos.ID] = true
			ch = true
		}
		if p.Dom != nil && q.Dom == nil {
			n.Dom = nil
			ch = true
		}
		if p.Str != nil && p.Pos != q.Pos && !h.vars[p.Pos.ID] {
			n.Pos = x.C.Fresh("pos", p.Pos.Sort)
			h.vars[n.Pos.ID] = true
			x.assumeHead(h, x.C.Ule(n.Pos, x.C.StrLen(p.Str)))
			ch = true
		}
		if ch {
			return &n
		}
		return a
	case *ChanObj:
		q, ok := b.(*ChanObj)
		if !ok || p.Closed != q.Closed {
			panic(unsupported("loop closes a channel"))
		}
		if p.Lost {
			return a
		}
		return &ChanObj{Lost: true, Closed: p.Closed}
	}
	panic(unsupported("loop changes a %T", a))
}

func allVars(h *head, ts []*Term) bool {
	for _, t := range ts {
		if !h.vars[t.ID] {
			return false
		}
	}
	return true
}

func (x *Exec) assumeHead(h *head, t *Term) { h.st.assume(t) }

// Candidate invariants

type cand struct {
	name string
	eval func(st *State, fr *Frame) *Term
	drop bool
}

func (x *Exec) candidates(st *State, fr *Frame, l *loopInfo) []*cand {
	C := x.C
	var cs []*cand
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	reg := func(fr *Frame, v ssa.Value) Val { return fr.env[fr.info.idx[v]] }
	// integer phis against their entry values
	for _, ph := range phis {
		ph := ph
		w, signed, ok := intInfo(ph.Type())
		if !ok {
			continue
		}
		e, isT := reg(fr, ph).(*Term)
		if !isT {
			continue
		}
		le := C.Sle
		if !signed {
			le = C.Ule
		}
		_ = w
		cs = append(cs, &cand{name: ph.Comment + " >= entry", eval: func(st *State, fr *Frame) *Term { return le(e, reg(fr, ph).(*Term)) }})
		cs = append(cs, &cand{name: ph.Comment + " <= entry", eval: func(st *State, fr *Frame) *Term { return le(reg(fr, ph).(*Term), e) }})
		// upper bounds from comparisons in the loop
		for b := range l.blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok {
					continue
				}
				var other ssa.Value
				involved := func(v ssa.Value) bool {
					if v == ssa.Value(ph) {
						return true
					}
					if a, ok := v.(*ssa.BinOp); ok && (a.Op == token.ADD || a.Op == token.SUB) && a.X == ssa.Value(ph) {
						return true
					}
					return false
				}
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
				default:
					continue
				}
				if involved(bo.X) {
					other = bo.Y
				} else if involved(bo.Y) {
					other = bo.X
				} else {
					continue
				}
				// loop invariant operand
				if in2, ok := other.(ssa.Instruction); ok && l.blocks[in2.Block()] {
					// a length call of an unchanged slice still evaluates inside; try to evaluate len
					if call, ok := other.(*ssa.Call); ok {
						if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
							arg := call.Call.Args[0]
							bb := bo
							cs = append(cs, &cand{name: ph.Comment + " <= len (line-free)", eval: func(st *State, fr *Frame) *Term {
								v, ok := x.evalInvariantOperand(st, fr, arg)
								if !ok {
									return nil
								}
								n := x.lenOf(st, v)
								if n == nil {
									return nil
								}
								_ = bb
								return le(reg(fr, ph).(*Term), n)
							}})
						}
					}
					continue
				}
				o2 := other
				cs = append(cs, &cand{name: ph.Comment + " <= bound " + other.Name(), eval: func(st *State, fr *Frame) *Term {
					ov, ok := x.val(st, fr, o2).(*Term)
					if !ok {
						return nil
					}
					return le(reg(fr, ph).(*Term), ov)
				}})
				cs = append(cs, &cand{name: ph.Comment + " < bound " + other.Name(), eval: func(st *State, fr *Frame) *Term {
					ov, ok := x.val(st, fr, o2).(*Term)
					if !ok {
						return nil
					}
					return C.Not(le(ov, reg(fr, ph).(*Term)))
				}})
			}
		}
		for _, p2 := range phis {
			p2 := p2
			w2, _, ok := intInfo(p2.Type())
			if !ok || p2 == ph || w2 != w {
				continue
			}
			e2, ok := reg(fr, p2).(*Term)
			if !ok {
				continue
			}
			d := C.Sub(e, e2)
			cs = append(cs, &cand{name: ph.Comment + " - " + p2.Comment + " constant", eval: func(st *State, fr *Frame) *Term {
				return C.Eq(C.Sub(reg(fr, ph).(*Term), reg(fr, p2).(*Term)), d)
			}})
		}
	}
	// slices
	for _, ph := range phis {
		ph := ph
		e, ok := reg(fr, ph).(*SliceV)
		if !ok {
			continue
		}
		get := func(fr *Frame) *SliceV { s, _ := reg(fr, ph).(*SliceV); return s }
		cs = append(cs, &cand{name: ph.Comment + " stays a suffix", eval: func(st *State, fr *Frame) *Term {
			s := get(fr)
			if s == nil || s.Obj != e.Obj {
				return nil
			}
			return C.And(C.Eq(C.Add(s.Off, s.Len), C.Add(e.Off, e.Len)), C.Ule(s.Len, e.Len))
		}})
		for _, p2 := range phis {
			p2 := p2
			w2, _, ok := intInfo(p2.Type())
			if !ok || w2 != 64 {
				continue
			}
			e2, ok := reg(fr, p2).(*Term)
			if !ok {
				continue
			}
			d := C.Sub(e.Len, e2)
			cs = append(cs, &cand{name: "len(" + ph.Comment + ") - " + p2.Comment + " constant", eval: func(st *State, fr *Frame) *Term {
				s := get(fr)
				if s == nil {
					return nil
				}
				return C.Eq(C.Sub(s.Len, reg(fr, p2).(*Term)), d)
			}})
			cs = append(cs, &cand{name: "len(" + ph.Comment + ") - " + p2.Comment + " <= entry difference", eval: func(st *State, fr *Frame) *Term {
				s := get(fr)
				if s == nil {
					return nil
				}
				return C.And(C.Sle(s.Len, C.Add(reg(fr, p2).(*Term), d)), C.Sle(C.Const(0, 64), s.Len))
			}})
		}
		cs = append(cs, &cand{name: "len(" + ph.Comment + ") >= entry", eval: func(st *State, fr *Frame) *Term {
			s := get(fr)
			if s == nil {
				return nil
			}
			return C.Ule(e.Len, s.Len)
		}})
	}
	cs = append(cs, x.heapCandidates(st, fr, l, phis)...)
	// user invariants instantiated over phis of matching types
	for k, inv := range st.invs {
		inv := inv
		sig := inv.Fn.Signature
		n := sig.Params().Len()
		if n == 0 {
			cs = append(cs, &cand{name: fmt.Sprintf("invariant %d", k), eval: func(st *State, fr *Frame) *Term { return x.evalPure(st, inv, nil) }})
			continue
		}
		type src struct {
			name string
			get  func(st *State, fr *Frame) Val
		}
		var choices [][]src
		for i := 0; i < n; i++ {
			pt := sig.Params().At(i).Type()
			var ss []src
			for _, ph := range phis {
				ph := ph
				if bt, ok := pt.Underlying().(*types.Basic); ok && bt.Kind() == types.Int {
					// a counter of another width, or what has been taken
					// off a slice or a descending counter
					if s0, ok := reg(fr, ph).(*SliceV); ok {
						n0 := s0.Len
						ss = append(ss, src{"taken from " + ph.Comment, func(st *State, fr *Frame) Val {
							s, ok := reg(fr, ph).(*SliceV)
							if !ok {
								return nil
							}
							return C.Sub(n0, s.Len)
						}})
						continue
					}
					if w, sg, ok := intInfo(ph.Type()); ok {
						wide := func(t *Term) *Term {
							if w >= 64 {
								return t
							}
							if sg {
								return C.Sext(t, 64)
							}
							return C.Zext(t, 64)
						}
						t0, ok := reg(fr, ph).(*Term)
						if ok && !types.Identical(ph.Type(), pt) {
							ss = append(ss, src{ph.Comment, func(st *State, fr *Frame) Val {
								t, ok := reg(fr, ph).(*Term)
								if !ok {
									return nil
								}
								return wide(t)
							}})
						}
						if ok && !(t0.Op == OConst && (t0.Val == 0 || t0.Val == mask(w))) {
							t0 := wide(t0)
							ss = append(ss, src{"down from " + ph.Comment, func(st *State, fr *Frame) Val {
								t, ok := reg(fr, ph).(*Term)
								if !ok {
									return nil
								}
								return C.Sub(t0, wide(t))
							}})
						}
					}
				}
				if !types.Identical(ph.Type(), pt) {
					continue
				}
				ss = append(ss, src{ph.Comment, func(st *State, fr *Frame) Val { return reg(fr, ph) }})
				if w, _, ok := intInfo(pt); ok {
					ss = append(ss, src{ph.Comment + "+1", func(st *State, fr *Frame) Val {
						t, ok := reg(fr, ph).(*Term)
						if !ok {
							return nil
						}
						return C.Add(t, C.Const(1, w))
					}})
				}
			}
			// local variables kept in memory
			for v, idx := range fr.info.idx {
				al, ok := v.(*ssa.Alloc)
				if !ok || fr.env[idx] == nil {
					continue
				}
				if !types.Identical(al.Type().Underlying().(*types.Pointer).Elem(), pt) {
					continue
				}
				idx := idx
				ss = append(ss, src{"*" + al.Comment, func(st *State, fr *Frame) Val {
					p, ok := fr.env[idx].(*PtrV)
					if !ok {
						return nil
					}
					o := st.get(p.Obj)
					if o == nil {
						return nil
					}
					return o.V
				}})
			}
			// other values computed before the loop
			if _, _, isInt := intInfo(pt); !isInt {
				for v, idx := range fr.info.idx {
					if _, ok := v.(*ssa.Phi); ok || fr.env[idx] == nil || !types.Identical(v.Type(), pt) {
						continue
					}
					if in, ok := v.(ssa.Instruction); ok && l.blocks[in.Block()] {
						continue
					}
					idx := idx
					ss = append(ss, src{v.Name(), func(st *State, fr *Frame) Val { return fr.env[idx] }})
				}
			}
			sort.Slice(ss, func(i, j int) bool { return ss[i].name < ss[j].name })
			choices = append(choices, ss)
		}
		var rec func(i int, acc []src)
		cnt := 0
		rec = func(i int, acc []src) {
			if cnt > 64 {
				return
			}
			if i == n {
				cnt++
				pick := append([]src(nil), acc...)
				nm := fmt.Sprintf("invariant %d(", k)
				for _, p := range pick {
					nm += p.name + ","
				}
				cs = append(cs, &cand{name: nm + ")", eval: func(st *State, fr *Frame) *Term {
					var args []Val
					for _, p := range pick {
						v := p.get(st, fr)
						if v == nil {
							return nil
						}
						args = append(args, v)
					}
					return x.evalPure(st, inv, args)
				}})
				return
			}
			for _, s := range choices[i] {
				rec(i+1, append(acc, s))
			}
		}
		rec(0, nil)
	}
	return cs
}

// frameCandidates: elements of a changed array that were stored before the
// loop keep their values.
func (x *Exec) frameCandidates(st *State, h *head) []*cand {
	C := x.C
	var cs []*cand
	var ids []int
	for id := range h.st.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		id := id
		eo, ho := st.get(id), h.st.get(id)
		if eo == nil || eo.V == ho.V {
			continue
		}
		ea, ok1 := eo.V.(*SymArr)
		ha, ok2 := ho.V.(*SymArr)
		if !ok1 || !ok2 {
			continue
		}
		for i := range ea.Leaves {
			i := i
			if ea.Leaves[i] == ha.Leaves[i] {
				continue
			}
			n := 0
			for a := ea.Leaves[i]; a.Op == OAStore && n < 24; a = a.Args[0] {
				n++
				k := a.Args[1]
				want := C.Select(ea.Leaves[i], k)
				cs = append(cs, &cand{name: fmt.Sprintf("%s[%v] unchanged", eo.Name, k), eval: func(st *State, fr *Frame) *Term {
					o := st.get(id)
					if o == nil {
						return nil
					}
					v, ok := o.V.(*SymArr)
					if !ok {
						return nil
					}
					return C.Eq(C.Select(v.Leaves[i], k), want)
				}})
			}
		}
	}
	return cs
}

// heapCandidates relates integer phis to the contract's ghost counters and to
// the values and lengths in scope at the loop.
func (x *Exec) heapCandidates(st *State, fr *Frame, l *loopInfo, phis []*ssa.Phi) []*cand {
	C := x.C
	reg := func(fr *Frame, v ssa.Value) *Term { t, _ := fr.env[fr.info.idx[v]].(*Term); return t }
	widen := func(t *Term, signed bool) *Term {
		if t == nil || t.Sort.Width >= 64 {
			return t
		}
		if signed {
			return C.Sext(t, 64)
		}
		return C.Zext(t, 64)
	}
	var cs []*cand
	var globs []*ssa.Global
	for g := range x.globObj {
		if strings.HasPrefix(g.Name(), "vp") {
			if _, _, ok := intInfo(g.Type().Underlying().(*types.Pointer).Elem()); ok {
				globs = append(globs, g)
			}
		}
	}
	sort.Slice(globs, func(i, j int) bool { return globs[i].Name() < globs[j].Name() })
	// what is left of a slice and a ghost counter of what was taken
	for _, ph := range phis {
		sl := func(fr *Frame) *SliceV { s, _ := fr.env[fr.info.idx[ph]].(*SliceV); return s }
		e := sl(fr)
		if e == nil {
			continue
		}
		for _, g := range globs {
			id := x.globObj[g]
			_, gs, _ := intInfo(g.Type().Underlying().(*types.Pointer).Elem())
			get := func(st *State) *Term {
				if o := st.get(id); o != nil {
					t, _ := o.V.(*Term)
					return widen(t, gs)
				}
				return nil
			}
			ge := get(st)
			if ge == nil {
				continue
			}
			d := C.Add(e.Len, ge)
			cs = append(cs, &cand{name: "len(" + ph.Comment + ") + " + g.Name() + " constant", eval: func(st *State, fr *Frame) *Term {
				s, gv := sl(fr), get(st)
				if s == nil || gv == nil {
					return nil
				}
				return C.Eq(C.Add(s.Len, gv), d)
			}})
		}
	}
	var invariant []ssa.Value
	for v, idx := range fr.info.idx {
		if in, ok := v.(ssa.Instruction); ok && l.blocks[in.Block()] {
			continue
		}
		if fr.env[idx] == nil {
			continue
		}
		invariant = append(invariant, v)
	}
	sort.Slice(invariant, func(i, j int) bool { return fr.info.idx[invariant[i]] < fr.info.idx[invariant[j]] })
	for _, ph := range phis {
		ph := ph
		w, signed, ok := intInfo(ph.Type())
		e := reg(fr, ph)
		if !ok || e == nil {
			continue
		}
		for _, g := range globs {
			id := x.globObj[g]
			gw, gs, _ := intInfo(g.Type().Underlying().(*types.Pointer).Elem())
			widen := widen
			if gw == w {
				widen = func(t *Term, _ bool) *Term { return t }
			}
			get := func(st *State) *Term {
				o := st.get(id)
				if o == nil {
					return nil
				}
				t, _ := o.V.(*Term)
				return widen(t, gs)
			}
			ge := get(st)
			if ge == nil {
				continue
			}
			d := C.Sub(widen(e, signed), ge)
			cs = append(cs, &cand{name: ph.Comment + " - " + g.Name() + " constant", eval: func(st *State, fr *Frame) *Term {
				p, gv := reg(fr, ph), get(st)
				if p == nil || gv == nil {
					return nil
				}
				return C.Eq(C.Sub(widen(p, signed), gv), d)
			}})
		}
		seen := map[*Term]bool{}
		for _, v := range invariant {
			var bound *Term
			switch t := fr.env[fr.info.idx[v]].(type) {
			case *Term:
				if vw, vs, ok := intInfo(v.Type()); ok && vw == w && vs == signed {
					bound = widen(t, vs)
				}
			case *SliceV:
				bound = t.Len
			}
			if bound == nil || seen[bound] || bound.IsConst() {
				continue
			}
			seen[bound] = true
			bnd := bound
			cs = append(cs, &cand{name: ph.Comment + " <= " + v.Name(), eval: func(st *State, fr *Frame) *Term {
				p := reg(fr, ph)
				if p == nil {
					return nil
				}
				if signed {
					return C.Sle(widen(p, true), bnd)
				}
				return C.Ule(widen(p, false), bnd)
			}})
		}
	}
	return cs
}

// stepCandidates relates the quantities that each iteration changes by a
// constant: as many steps of the one as of the other.
func (x *Exec) stepCandidates(st *State, fr *Frame, l *loopInfo, h *head, outs []Out) []*cand {
	C := x.C
	type quantity struct {
		name string
		get  func(st *State, fr *Frame) *Term
		at0  *Term
		step uint64
	}
	wide := func(t *Term, signed bool) *Term {
		if t == nil || t.Sort.Width >= 64 {
			return t
		}
		if signed {
			return C.Sext(t, 64)
		}
		return C.Zext(t, 64)
	}
	var qs []*quantity
	add := func(name string, get func(st *State, fr *Frame) *Term, signed bool) {
		q := &quantity{name: name}
		q.get = func(st *State, fr *Frame) *Term { return wide(get(st, fr), signed) }
		first := true
		for _, o := range outs {
			if o.kind != oStop {
				continue
			}
			a, b := get(h.st, h.fr), get(o.st, o.fr)
			if a == nil || b == nil || a.Sort != b.Sort {
				return
			}
			d := C.Sub(b, a)
			if !d.IsConst() {
				return
			}
			if d.Sort.Width < 64 {
				d = C.Sext(d, 64)
			}
			if !first && d.Val != q.step {
				return
			}
			q.step, first = d.Val, false
		}
		q.at0 = q.get(st, fr)
		if first || q.step == 0 || q.at0 == nil {
			return
		}
		qs = append(qs, q)
	}
	for _, in := range l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if _, signed, ok := intInfo(ph.Type()); ok {
			add(ph.Comment, func(st *State, fr *Frame) *Term { t, _ := fr.env[fr.info.idx[ph]].(*Term); return t }, signed)
		} else if _, ok := ph.Type().Underlying().(*types.Slice); ok {
			add("len("+ph.Comment+")", func(st *State, fr *Frame) *Term {
				if s, ok := fr.env[fr.info.idx[ph]].(*SliceV); ok {
					return s.Len
				}
				return nil
			}, true)
		}
	}
	if it := x.rangeIter(st, fr, l.header); it != nil && it.Str == nil && it.MapID != 0 {
		add("vp visits", func(st *State, fr *Frame) *Term {
			if it := x.rangeIter(st, fr, l.header); it != nil {
				return it.Pos
			}
			return nil
		}, true)
	}
	var globs []*ssa.Global
	for g := range x.globObj {
		if strings.HasPrefix(g.Name(), "vp") {
			globs = append(globs, g)
		}
	}
	sort.Slice(globs, func(i, j int) bool { return globs[i].Name() < globs[j].Name() })
	for _, g := range globs {
		id := x.globObj[g]
		if _, signed, ok := intInfo(g.Type().Underlying().(*types.Pointer).Elem()); ok {
			add(g.Name(), func(st *State, fr *Frame) *Term {
				if o := st.get(id); o != nil {
					t, _ := o.V.(*Term)
					return t
				}
				return nil
			}, signed)
		}
	}
	var cs []*cand
	for i, a := range qs {
		for _, b := range qs[i+1:] {
			if a.step == b.step {
				if a.at0.Sort == b.at0.Sort && !strings.HasPrefix(b.name, "vp") && !strings.HasPrefix(b.name, "len(") && !strings.HasPrefix(a.name, "len(") {
					continue // among the other candidates
				}
			}
			ka, kb := C.Const(b.step, 64), C.Const(a.step, 64)
			cs = append(cs, &cand{name: fmt.Sprintf("%s moves %d as %s moves %d", a.name, int64(a.step), b.name, int64(b.step)), eval: func(st *State, fr *Frame) *Term {
				ta, tb := a.get(st, fr), b.get(st, fr)
				if ta == nil || tb == nil {
					return nil
				}
				return C.Eq(C.Mul(ka, C.Sub(ta, a.at0)), C.Mul(kb, C.Sub(tb, b.at0)))
			}})
		}
	}
	return cs
}

func (x *Exec) lenOf(st *State, v Val) *Term {
	switch p := v.(type) {
	case *SliceV:
		return p.Len
	case *SymSlice:
		return x.materSlice(st, p).Len
	case *Term:
		if p.Sort == x.C.StrS {
			return x.C.StrLen(p)
		}
	}
	return nil
}

// evalInvariantOperand evaluates a value computed in the loop from loads of
// memory, in the given state, without side effects.
func (x *Exec) evalInvariantOperand(st *State, fr *Frame, v ssa.Value) (Val, bool) {
	switch t := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Parameter, *ssa.FreeVar, *ssa.Alloc, *ssa.Phi:
		r := func() (r Val) {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(unsup); ok {
						r = nil
						return
					}
					panic(e)
				}
			}()
			return x.val(st, fr, v)
		}()
		return r, r != nil
	case *ssa.UnOp:
		if t.Op != token.MUL {
			return nil, false
		}
		a, ok := x.evalInvariantOperand(st, fr, t.X)
		if !ok {
			return nil, false
		}
		p, ok := a.(*PtrV)
		if !ok || p.Obj == 0 {
			return nil, false
		}
		outs := x.load(st, p, t)
		if len(outs) != 1 {
			return nil, false
		}
		return outs[0].ret, true
	case *ssa.FieldAddr:
		a, ok := x.evalInvariantOperand(st, fr, t.X)
		if !ok {
			return nil, false
		}
		p, ok := a.(*PtrV)
		if !ok || p.Obj == 0 {
			return nil, false
		}
		return &PtrV{Obj: p.Obj, Path: appendPath(p.Path, PathEl{Fld: t.Field})}, true
	default:
		i, ok := fr.info.idx[v]
		if ok && fr.env[i] != nil {
			return fr.env[i], true
		}
	}
	return nil, false
}

// evalPure evaluates a boolean closure to a single term without side effects.
// A panicking path counts as false.
func (x *Exec) evalPure(st *State, f *FuncV, args []Val) (res *Term) {
	x.dry++
	x.pure++
	defer func() { x.dry--; x.pure-- }()
	d, ns := x.depth, len(x.fnStack)
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(unsup); ok {
				x.depth = d
				x.fnStack = x.fnStack[:ns]
				if os.Getenv("VGO_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "invariant not evaluable:", u.msg)
				}
				res = nil
				return
			}
			panic(e)
		}
	}()
	s := st.clone()
	outs := x.callValue(s, f, args, nil, nil)
	var alts []*Term
	for _, o := range outs {
		if o.p != nil {
			continue
		}
		g := o.st.pcSince(st.pc)
		alts = append(alts, x.C.And(append(g, o.ret.(*Term))...))
	}
	if len(outs) == 1 && outs[0].p == nil {
		// assumptions made on the way (definitions) must not weaken the result
		return alts[0]
	}
	return x.C.Or(alts...)
}
