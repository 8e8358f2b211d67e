package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// model extracts concrete harness inputs from a satisfying assignment,
// preferring short slices and strings.
func (x *Exec) model(st *State, ts []*Term) map[string]interface{} {
	var lens []*Term
	var collect func(v Val)
	collect = func(v Val) {
		switch p := v.(type) {
		case *Term:
			if p.Sort == x.C.StrS {
				lens = append(lens, x.C.StrLen(p))
			}
		case *SliceV:
			lens = append(lens, p.Len)
		case *StructV:
			for _, f := range p.F {
				collect(f)
			}
		case *ArrayV:
			for _, f := range p.E {
				collect(f)
			}
		}
	}
	for _, in := range x.inputs {
		collect(in.V)
	}
	var out map[string]interface{}
	for _, lim := range []uint64{4, 24, 200, 5000, 0} {
		q := append([]*Term(nil), ts...)
		if lim > 0 {
			if len(lens) == 0 && lim < 5000 {
				continue
			}
			for _, l := range lens {
				q = append(q, x.C.Ule(l, x.C.Const(lim, 64)))
			}
		}
		r := x.S.Check(q, x.oblMS, false, func(ev func(*Term) string) {
			m := map[string]interface{}{}
			lits := map[string]string{}
			for s, t := range x.C.strs {
				if v := ev(t); v != "" {
					lits[v] = s
				}
			}
			for _, in := range x.inputs {
				m[in.Name] = x.concrete(st, in.T, in.V, ev, lits, 0)
			}
			out = m
		})
		if r == Sat {
			return out
		}
	}
	return out
}

func parseBV(s string) (uint64, bool) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "#x") {
		h := s[2:]
		if len(h) > 16 {
			h = h[len(h)-16:]
		}
		v, err := strconv.ParseUint(h, 16, 64)
		return v, err == nil
	}
	if strings.HasPrefix(s, "#b") {
		v, err := strconv.ParseUint(s[2:], 2, 64)
		return v, err == nil
	}
	return 0, false
}

func (x *Exec) concrete(st *State, t types.Type, v Val, ev func(*Term) string, lits map[string]string, d int) interface{} {
	if n, op := x.isOpaque(t); op {
		if n == "time_Time" {
			s, ns := x.timeParts(v.(*Term))
			a, _ := parseBV(ev(s))
			b, _ := parseBV(ev(ns))
			return map[string]interface{}{"time": []string{fmt.Sprint(int64(a)), fmt.Sprint(b)}}
		}
		return map[string]interface{}{"opaque": ev(v.(*Term))}
	}
	switch p := v.(type) {
	case *Term:
		if p.Sort == x.C.Bool {
			return ev(p) == "true"
		}
		if p.Sort == x.C.StrS {
			if s, ok := lits[ev(p)]; ok {
				return map[string]interface{}{"str": bytesList([]byte(s))}
			}
			n, _ := parseBV(ev(x.C.StrLen(p)))
			if n > 5000 {
				n = 5000
			}
			b := make([]byte, n)
			for i := range b {
				c, _ := parseBV(ev(x.C.StrAt(p, x.C.Const(uint64(i), 64))))
				b[i] = byte(c)
			}
			return map[string]interface{}{"str": bytesList(b)}
		}
		if p.Sort.Width > 64 {
			return nil
		}
		n, _ := parseBV(ev(p))
		return fmt.Sprintf("%d", n) // bit pattern
	case *StructV:
		u := t.Underlying().(*types.Struct)
		var r []interface{}
		for i, f := range p.F {
			r = append(r, x.concrete(st, u.Field(i).Type(), f, ev, lits, d+1))
		}
		return r
	case *ArrayV:
		var r []interface{}
		for _, f := range p.E {
			r = append(r, x.concrete(st, elemType(t), f, ev, lits, d+1))
		}
		return r
	case *SliceV:
		n, _ := parseBV(ev(p.Len))
		if n > 5000 {
			return nil
		}
		sa, ok := x.global.get(p.Obj), false
		_ = sa
		o := st.get(p.Obj)
		// inputs are read as they were at the start: the fresh arrays are named after the input
		r := []interface{}{}
		init := x.inputArr[p.Obj]
		if init == nil {
			if a, isA := o.V.(*SymArr); isA {
				init = a
			}
		}
		if init == nil {
			return nil
		}
		for i := uint64(0); i < n; i++ {
			var ls []*Term
			for _, a := range init.Leaves {
				ls = append(ls, x.C.Select(a, x.C.Const(i, 64)))
			}
			e, _ := x.unflatten(st, p.Elem, ls)
			r = append(r, x.concrete(st, p.Elem, e, ev, lits, d+1))
		}
		_ = ok
		return map[string]interface{}{"slice": r}
	}
	return nil
}

func bytesList(b []byte) []int {
	r := make([]int, len(b))
	for i := range b {
		r[i] = int(b[i])
	}
	return r
}
