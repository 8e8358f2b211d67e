package main

import (
	"fmt"
	"math/big"
	"strings"
)

// intScript renders the question over mathematical integers with explicit
// wrap-around at machine width. Operations with no integer counterpart become
// arbitrary values, so only "unsat" is an answer.
func (s *Solver) intScript(ts []*Term) (string, bool) {
	var out strings.Builder
	out.WriteString("(set-logic ALL)\n")
	e := &intEmitter{c: s.c, done: map[int]string{}, decl: map[string]bool{}, out: &out}
	ok := true
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, isU := r.(unsup); isU {
					ok = false
					return
				}
				panic(r)
			}
		}()
		for _, a := range s.c.Axioms {
			if a.Op == OForall {
				continue
			}
			r := e.ref(a)
			out.WriteString("(assert " + r + ")\n")
		}
		for _, t := range ts {
			r := e.ref(t)
			out.WriteString("(assert " + r + ")\n")
		}
	}()
	out.WriteString("(check-sat)\n")
	return out.String(), ok && e.arith
}

type intEmitter struct {
	c     *Ctx
	done  map[int]string
	decl  map[string]bool
	out   *strings.Builder
	arith bool
}

func pow2(w int) string { return new(big.Int).Lsh(big.NewInt(1), uint(w)).String() }

func (e *intEmitter) sort(s *Sort) string {
	switch s.Kind {
	case SBool:
		return "Bool"
	case SBV:
		return "Int"
	case SOpaque:
		if !e.decl["sort:"+s.Name] {
			e.decl["sort:"+s.Name] = true
			e.out.WriteString("(declare-sort " + s.Name + " 0)\n")
		}
		return s.Name
	}
	panic(unsupported("array in integer translation"))
}

func (e *intEmitter) rangeOf(n string, s *Sort) {
	if s.Kind == SBV {
		fmt.Fprintf(e.out, "(assert (and (<= 0 %s) (< %s %s)))\n", n, n, pow2(s.Width))
	}
}

func (e *intEmitter) fresh(t *Term) string {
	n := fmt.Sprintf("any!%d", t.ID)
	fmt.Fprintf(e.out, "(declare-fun %s () %s)\n", n, e.sort(t.Sort))
	e.rangeOf(n, t.Sort)
	return n
}

func (e *intEmitter) ref(t *Term) string {
	if r, ok := e.done[t.ID]; ok {
		return r
	}
	if t.bound || t.Op == OForall {
		r := "true"
		if t.Sort.Kind != SBool {
			r = e.fresh(t)
		} else {
			r = e.fresh(t)
		}
		e.done[t.ID] = r
		return r
	}
	// dependencies first, without deep recursion
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.Args) {
			a := f.t.Args[f.i]
			f.i++
			if _, ok := e.done[a.ID]; !ok {
				if a.bound || a.Op == OForall {
					e.done[a.ID] = e.fresh(a)
				} else {
					st = append(st, fr{a, 0})
				}
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if _, ok := e.done[x.ID]; !ok {
			e.done[x.ID] = e.node(x)
		}
	}
	return e.done[t.ID]
}

func (e *intEmitter) def(t *Term, body string) string {
	n := fmt.Sprintf("i%d", t.ID)
	fmt.Fprintf(e.out, "(define-fun %s () %s %s)\n", n, e.sort(t.Sort), body)
	return n
}

func (e *intEmitter) node(t *Term) string {
	a := make([]string, len(t.Args))
	for i, x := range t.Args {
		a[i] = e.done[x.ID]
	}
	w := 0
	if t.Sort.Kind == SBV {
		w = t.Sort.Width
	}
	wrap := func(s string) string { return e.def(t, fmt.Sprintf("(mod %s %s)", s, pow2(w))) }
	signed := func(s string, w int) string {
		return fmt.Sprintf("(ite (< %s %s) %s (- %s %s))", s, pow2(w-1), s, s, pow2(w))
	}
	maskBits := func(c *Term) (hi, lo int, ok bool) {
		if !c.IsConst() || c.Val == 0 {
			return
		}
		v := c.Val
		for v&1 == 0 {
			lo++
			v >>= 1
		}
		hi = lo
		for v&1 == 1 {
			hi++
			v >>= 1
		}
		return hi - 1, lo, v == 0
	}
	switch t.Op {
	case OConst:
		return fmt.Sprint(t.Val)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar:
		n := smtName(t.Name)
		fmt.Fprintf(e.out, "(declare-fun %s () %s)\n", n, e.sort(t.Sort))
		e.rangeOf(n, t.Sort)
		return n
	case OApp:
		if !e.decl[t.Name] {
			e.decl[t.Name] = true
			d := e.c.funs[t.Name]
			var as []string
			for _, s := range d.Args {
				as = append(as, e.sort(s))
			}
			fmt.Fprintf(e.out, "(declare-fun %s (%s) %s)\n", smtName(t.Name), strings.Join(as, " "), e.sort(d.Ret))
		}
		n := smtName(t.Name)
		if len(a) > 0 {
			n = "(" + n + " " + strings.Join(a, " ") + ")"
		}
		n = e.def(t, n)
		e.rangeOf(n, t.Sort)
		return n
	case ONot, OAnd, OOr, OIte:
		return e.def(t, "("+opNames[t.Op]+" "+strings.Join(a, " ")+")")
	case OEq:
		return e.def(t, "(= "+a[0]+" "+a[1]+")")
	case OAdd:
		return wrap("(+ " + strings.Join(a, " ") + ")")
	case OSub:
		return wrap("(- " + a[0] + " " + a[1] + ")")
	case OMul:
		e.arith = true
		if !t.Args[0].IsConst() && !t.Args[1].IsConst() {
			return e.fresh(t)
		}
		return wrap("(* " + a[0] + " " + a[1] + ")")
	case OUDiv, OURem:
		e.arith = true
		if !t.Args[1].IsConst() || t.Args[1].Val == 0 {
			return e.fresh(t)
		}
		op := "div"
		if t.Op == OURem {
			op = "mod"
		}
		return e.def(t, "("+op+" "+a[0]+" "+a[1]+")")
	case OSDiv, OSRem:
		e.arith = true
		c := t.Args[1]
		if !c.IsConst() || sext64(c.Val, w) <= 0 {
			return e.fresh(t)
		}
		x := signed(a[0], w)
		sn := fmt.Sprintf("is%d", t.ID)
		fmt.Fprintf(e.out, "(define-fun %s () Int %s)\n", sn, x)
		q := fmt.Sprintf("(ite (>= %s 0) (div %s %s) (- (div (- %s) %s)))", sn, sn, a[1], sn, a[1])
		if t.Op == OSDiv {
			return wrap(q)
		}
		return wrap(fmt.Sprintf("(- %s (* %s %s))", sn, a[1], q))
	case OUlt:
		return e.def(t, "(< "+a[0]+" "+a[1]+")")
	case OUle:
		return e.def(t, "(<= "+a[0]+" "+a[1]+")")
	case OSlt, OSle:
		w := t.Args[0].Sort.Width
		op := "<"
		if t.Op == OSle {
			op = "<="
		}
		return e.def(t, "("+op+" "+signed(a[0], w)+" "+signed(a[1], w)+")")
	case OConcat:
		if len(a) == 2 {
			return e.def(t, fmt.Sprintf("(+ (* %s %s) %s)", a[0], pow2(t.Args[1].Sort.Width), a[1]))
		}
	case OExtract:
		if t.J == 0 {
			return e.def(t, fmt.Sprintf("(mod %s %s)", a[0], pow2(t.I+1)))
		}
		return e.def(t, fmt.Sprintf("(mod (div %s %s) %s)", a[0], pow2(t.J), pow2(t.I-t.J+1)))
	case OZext:
		return a[0]
	case OSext:
		return e.def(t, fmt.Sprintf("(mod %s %s)", signed(a[0], t.Args[0].Sort.Width), pow2(w)))
	case OBAnd:
		for i := 0; i < 2 && len(a) == 2; i++ {
			if hi, lo, ok := maskBits(t.Args[i]); ok {
				o := a[1-i]
				return e.def(t, fmt.Sprintf("(* %s (mod (div %s %s) %s))", pow2(lo), o, pow2(lo), pow2(hi-lo+1)))
			}
		}
	case OShl:
		if t.Args[1].IsConst() && t.Args[1].Val < uint64(w) {
			return wrap(fmt.Sprintf("(* %s %s)", a[0], pow2(int(t.Args[1].Val))))
		}
	case OLshr:
		if t.Args[1].IsConst() && t.Args[1].Val < uint64(w) {
			return e.def(t, fmt.Sprintf("(div %s %s)", a[0], pow2(int(t.Args[1].Val))))
		}
	case OBNot:
		return e.def(t, fmt.Sprintf("(- %s 1 %s)", pow2(w), a[0]))
	case ONeg:
		return wrap("(- " + a[0] + ")")
	}
	if t.Sort.Kind == SArr {
		panic(unsupported("array in integer translation"))
	}
	return e.fresh(t)
}
