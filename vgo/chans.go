package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Channels are followed as queues within one goroutine: sending never blocks,
// and receiving takes what was sent first. What another goroutine would have
// to send is arbitrary.

func (x *Exec) chanObj(st *State, c *ChanV) *ChanObj {
	if c.Obj == 0 {
		return nil
	}
	return st.get(c.Obj).V.(*ChanObj)
}

func (x *Exec) send(st *State, c *ChanV, v Val, in ssa.Instruction) []CallOut {
	if c.Obj == 0 {
		// blocks forever
		return nil
	}
	co := *x.chanObj(st, c)
	cont, outs := x.check(st, x.C.BoolC(!co.Closed), "send", "send on closed channel", in)
	if !cont {
		return outs
	}
	if !co.Lost {
		co.Sent = append(co.Sent[:len(co.Sent):len(co.Sent)], v)
	}
	st.set(c.Obj, &co)
	return append(outs, CallOut{st: st})
}

func (x *Exec) receive(st *State, v Val, t types.Type) (Val, Val) {
	et := t.Underlying().(*types.Chan).Elem()
	if c, ok := v.(*ChanV); ok {
		if co := x.chanObj(st, c); co != nil && !co.Lost {
			if len(co.Sent) > 0 {
				n := *co
				n.Sent = co.Sent[1:]
				st.set(c.Obj, &n)
				return co.Sent[0], x.C.True
			}
			if co.Closed {
				return x.zero(et), x.C.False
			}
		}
	}
	return x.freshVal(st, "recv", et, 0), x.C.Fresh("recvok", x.C.Bool)
}

// selectOp goes on with every case that is ready; if none is, with every case
// that another goroutine could make ready.
func (x *Exec) selectOp(st *State, fr *Frame, t *ssa.Select) []CallOut {
	tt := t.Type().(*types.Tuple)
	chans := make([]*ChanV, len(t.States))
	var ready, other []int
	for i, s := range t.States {
		c, ok := x.val(st, fr, s.Chan).(*ChanV)
		if !ok {
			other = append(other, i)
			continue
		}
		chans[i] = c
		co := x.chanObj(st, c)
		switch {
		case co == nil:
		case s.Dir == types.SendOnly, co.Lost, co.Closed, len(co.Sent) > 0:
			ready = append(ready, i)
		default:
			other = append(other, i)
		}
	}
	result := func(st *State, at int, v, ok Val) Val {
		tv := &TupleV{E: []Val{x.C.Const(uint64(int64(at)), 64), ok}}
		n := 2
		for i, s := range t.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			if i == at {
				tv.E = append(tv.E, v)
			} else {
				tv.E = append(tv.E, x.zero(tt.At(n).Type()))
			}
			n++
		}
		return tv
	}
	pick := ready
	if len(pick) == 0 {
		if !t.Blocking {
			return one(st, result(st, -1, nil, x.C.False))
		}
		pick = other
	}
	var outs []CallOut
	which := x.C.Fresh("select", x.C.BV(64))
	for _, i := range pick {
		s := st.clone()
		s.assume(x.C.Eq(which, x.C.Const(uint64(i), 64)))
		if t.States[i].Dir == types.SendOnly {
			for _, o := range x.send(s, chans[i], x.val(s, fr, t.States[i].Send), t) {
				if o.p == nil {
					o.ret = result(o.st, i, nil, x.C.False)
				}
				outs = append(outs, o)
			}
			continue
		}
		v, ok := x.receive(s, x.val(s, fr, t.States[i].Chan), t.States[i].Chan.Type())
		outs = append(outs, CallOut{st: s, ret: result(s, i, v, ok)})
	}
	return outs
}
