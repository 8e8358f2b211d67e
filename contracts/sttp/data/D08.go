package data

import (
	"math/rand"
	"time"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/guid"
)

//verif:with common_value.go

// D08: IIf, Coalesce, IsNull, MinOf and MaxOf.

func gen_D08_iif(r *rand.Rand) (vpVal, vpVal, vpVal) { return vpTest(r), vpRandom(r), vpRandom(r) }
func gen_D08_isNull(r *rand.Rand) (vpVal, vpVal)     { return vpRandom(r), vpRandom(r) }
func gen_D08_coalesce(r *rand.Rand) ([4]vpVal, int)  { return vpFour(r), 2 + r.Intn(3) }
func gen_D08_extreme(r *rand.Rand) (vpVal, vpVal, bool) {
	return vpRandom(r), vpRandom(r), r.Intn(2) == 0
}
func gen_D08_three(r *rand.Rand) (byte, [4]vpVal, bool) {
	return byte(r.Intn(9)), vpFour(r), r.Intn(2) == 0
}

func vpTest(r *rand.Rand) vpVal {
	v := vpRandom(r)
	if r.Intn(4) > 0 {
		v.Kind = vBool
	}
	return v
}

func vpFour(r *rand.Rand) (v [4]vpVal) {
	for i := range v {
		v[i] = vpRandom(r)
		v[i].Null = r.Intn(2) == 0
	}
	return v
}

// same reports whether an evaluation gave a value as it is.
func same(got *ValueExpression, err error, v vpVal) bool {
	if v.Null {
		return is(got, err, int(v.Kind), nil)
	}
	w, _ := specConvert(v, int(v.Kind))
	return is(got, err, int(v.Kind), w)
}

func contract_D08_iif(test, l, r vpVal) {
	vpKind(test, func(test vpVal) {
		vpKinds(l, r, func(l, r vpVal) {
			got, err := call(ExpressionFunctionType.IIf, test, l, r)
			test, l, r = test.typed(vBool), l.typed(vBool), r.typed(vBool)
			if test.Kind != vBool {
				vpEnsures("test that is not Boolean is an error", err != nil)
				return
			}
			if !test.Null && test.B {
				vpEnsures("second argument when the test holds", same(got, err, l))
				return
			}
			vpEnsures("third argument otherwise", same(got, err, r))
		})
	})
}

// Only the chosen argument of IIf is evaluated.
func contract_D08_iifLazy(v vpVal, test bool) {
	vpKind(v, func(v vpVal) {
		broken := NewOperatorExpression(ExpressionOperatorType.And, vpVal{Kind: vGuid}.expr(), vpVal{Kind: vGuid}.expr())
		list := []Expression{vpVal{Kind: vBool, B: test}.expr(), v.expr(), broken}
		if !test {
			list[1], list[2] = list[2], list[1]
		}
		tree := NewExpressionTree()
		tree.Root = NewFunctionExpression(ExpressionFunctionType.IIf, list)
		got, err := tree.Evaluate(nil)
		vpEnsures("other argument is not evaluated", same(got, err, v.typed(vBool)))
	})
}

func contract_D08_isNull(v, w vpVal) {
	vpKinds(v, w, func(v, w vpVal) {
		got, err := call(ExpressionFunctionType.IsNull, v, w)
		v, w = v.typed(vString), w.typed(vString)
		if w.Null {
			vpEnsures("null default is an error", err != nil)
			return
		}
		if v.Null {
			vpEnsures("default for null", same(got, err, w))
			return
		}
		vpEnsures("value that is not null", same(got, err, v))
	})
}

//verif:bounded 2 to 4 arguments
func contract_D08_coalesce(v [4]vpVal, n int) {
	vpRequires(n >= 2 && n <= 4)
	for i := range v {
		vpRequires(v[i].Kind == vInt32 || v[i].Kind == vString)
	}
	for k := 2; k <= 4; k++ {
		if n == k {
			got, err := call(ExpressionFunctionType.Coalesce, v[:k]...)
			want := v[0]
			for i := 0; i < k && want.Null; i++ {
				if !v[i].Null {
					want = v[i]
				}
			}
			if want.Kind == vInt32 {
				want.Kind = vInt32
				vpEnsures("first value that is not null", same(got, err, want))
				return
			}
			want.Kind = vString
			vpEnsures("first value that is not null", same(got, err, want))
			return
		}
	}
}

// specMore tells whether a value is greater than another one of its type.
func specMore(kind int, a, b any) bool {
	switch kind {
	case vBool:
		return a.(bool) && !b.(bool)
	case vInt32:
		return a.(int32) > b.(int32)
	case vInt64:
		return a.(int64) > b.(int64)
	case vDecimal:
		return a.(decimal.Decimal).Cmp(b.(decimal.Decimal)) > 0
	case vDouble:
		return a.(float64) > b.(float64)
	case vGuid:
		return guid.Compare(a.(guid.Guid), b.(guid.Guid)) > 0
	}
	return a.(time.Time).After(b.(time.Time))
}

// The greatest or the least of two values.
func contract_D08_extreme(v, w vpVal, max bool) {
	vpKinds(v, w, func(v, w vpVal) {
		if v.Kind == vString || w.Kind == vString || v.Kind == vUndefined || w.Kind == vUndefined {
			return
		}
		fn := ExpressionFunctionType.MinOf
		if max {
			fn = ExpressionFunctionType.MaxOf
		}
		got, err := call(fn, v, w)
		t := int(v.Kind)
		if w.Kind > v.Kind {
			t = int(w.Kind)
		}
		if t > vDouble && v.Kind != w.Kind {
			vpEnsures("types without comparison are an error", err != nil)
			return
		}
		if v.Null || w.Null {
			if v.Null && !w.Null {
				vpEnsures("null does not count", same(got, err, w))
				return
			}
			vpEnsures("null does not count", same(got, err, v))
			return
		}
		a, _ := specConvert(v, t)
		b, _ := specConvert(w, t)
		more := specMore(t, b, a)
		if !max {
			more = specMore(t, a, b)
		}
		if more {
			vpEnsures("second value when it goes beyond the first", same(got, err, w))
			return
		}
		vpEnsures("first value otherwise", same(got, err, v))
	})
}

//verif:bounded three arguments
func contract_D08_three(kind byte, v [4]vpVal, max bool) {
	vpRequires(kind <= vDateTime && kind != vString)
	for k := byte(0); k <= vDateTime; k++ {
		if kind == k {
			for i := range v {
				v[i].Kind, v[i].Null = k, false
			}
			vpExtremeOfThree(int(k), v[0], v[1], v[2], max)
			return
		}
	}
}

func vpExtremeOfThree(kind int, a, b, c vpVal, max bool) {
	if kind == vDouble {
		vpRequires(a.F == a.F && b.F == b.F && c.F == c.F)
	}
	fn := ExpressionFunctionType.MinOf
	if max {
		fn = ExpressionFunctionType.MaxOf
	}
	got, err := call(fn, a, b, c)
	vpEnsures("one of the values", same(got, err, a) || same(got, err, b) || same(got, err, c))
	for _, v := range []vpVal{a, b, c} {
		w, _ := specConvert(v, kind)
		if max {
			vpEnsures("no value beyond", !specMore(kind, w, got.Value()))
		} else {
			vpEnsures("no value beyond", !specMore(kind, got.Value(), w))
		}
	}
}
