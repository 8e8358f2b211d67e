package data

import (
	"math/rand"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/guid"
)

//verif:with common_value.go

// D03: comparison operators of filter expressions, evaluated as an expression
// tree.

// specComparison is the type two values are compared as.
func specComparison(l, r int) (t int, ok bool) {
	switch {
	case r == vString && (l == vInt32 || l == vInt64):
		return vDecimal, true
	case l == vString || r == vString || l == r:
		return l, true
	case l > vDouble || r > vDouble:
		return 0, false
	case l > r:
		return l, true
	}
	return r, true
}

func gen_D03_less(r *rand.Rand) (vpVal, vpVal)           { return vpRandom(r), vpRandom(r) }
func gen_D03_lessOrEqual(r *rand.Rand) (vpVal, vpVal)    { return vpRandom(r), vpRandom(r) }
func gen_D03_greater(r *rand.Rand) (vpVal, vpVal)        { return vpRandom(r), vpRandom(r) }
func gen_D03_greaterOrEqual(r *rand.Rand) (vpVal, vpVal) { return vpRandom(r), vpRandom(r) }
func gen_D03_equal(r *rand.Rand) (vpVal, vpVal)          { return vpRandom(r), vpRandom(r) }
func gen_D03_equalExact(r *rand.Rand) (vpVal, vpVal)     { return vpRandom(r), vpRandom(r) }
func gen_D03_notEqual(r *rand.Rand) (vpVal, vpVal)       { return vpRandom(r), vpRandom(r) }
func gen_D03_notEqualExact(r *rand.Rand) (vpVal, vpVal)  { return vpRandom(r), vpRandom(r) }

func contract_D03_less(l, r vpVal) {
	vpKinds(l, r, func(l, r vpVal) { vpCompare(10, l, r) })
}

func contract_D03_lessOrEqual(l, r vpVal) {
	vpKinds(l, r, func(l, r vpVal) { vpCompare(11, l, r) })
}

func contract_D03_greater(l, r vpVal) {
	vpKinds(l, r, func(l, r vpVal) { vpCompare(12, l, r) })
}

func contract_D03_greaterOrEqual(l, r vpVal) {
	vpKinds(l, r, func(l, r vpVal) { vpCompare(13, l, r) })
}

func contract_D03_equal(l, r vpVal) {
	vpKinds(l, r, func(l, r vpVal) { vpCompare(14, l, r) })
}

func contract_D03_equalExact(l, r vpVal) {
	vpKinds(l, r, func(l, r vpVal) { vpCompare(15, l, r) })
}

func contract_D03_notEqual(l, r vpVal) {
	vpKinds(l, r, func(l, r vpVal) { vpCompare(16, l, r) })
}

func contract_D03_notEqualExact(l, r vpVal) {
	vpKinds(l, r, func(l, r vpVal) { vpCompare(17, l, r) })
}

// specHolds tells whether a comparison holds given what the order says.
func specHolds(op int, less, equal, greater bool) bool {
	switch op {
	case 10:
		return less
	case 11:
		return less || equal
	case 12:
		return greater
	case 13:
		return greater || equal
	case 14, 15:
		return equal
	}
	return !equal
}

func vpCompare(op int, l, r vpVal) {
	le, re := l.expr(), r.expr()
	if l.Kind == vUndefined {
		l.Kind, l.Null = vBool, true
	}
	if r.Kind == vUndefined {
		r.Kind, r.Null = vBool, true
	}
	tree := NewExpressionTree()
	tree.Root = NewOperatorExpression(ExpressionOperatorTypeEnum(op), le, re)

	got, err := tree.Evaluate(nil)

	t, ok := specComparison(int(l.Kind), int(r.Kind))
	if !ok {
		vpEnsures("operand types without comparison are an error", err != nil)
		return
	}
	if l.Null || r.Null {
		vpEnsures("comparing with null gives a Boolean null", is(got, err, vBool, nil))
		return
	}
	a, _ := specConvert(l, t)
	b, _ := specConvert(r, t)
	switch t {
	case vBool:
		x, y := a.(bool), b.(bool)
		vpEnsures("Boolean comparison", is(got, err, vBool, specHolds(op, !x && y, x == y, x && !y)))
	case vInt32:
		x, y := a.(int32), b.(int32)
		vpEnsures("Int32 comparison", is(got, err, vBool, specHolds(op, x < y, x == y, x > y)))
	case vInt64:
		x, y := a.(int64), b.(int64)
		vpEnsures("Int64 comparison", is(got, err, vBool, specHolds(op, x < y, x == y, x > y)))
	case vDecimal:
		n := a.(decimal.Decimal).Cmp(b.(decimal.Decimal))
		vpEnsures("Decimal comparison", is(got, err, vBool, specHolds(op, n < 0, n == 0, n > 0)))
	case vDouble:
		x, y := a.(float64), b.(float64)
		vpEnsures("Double comparison", is(got, err, vBool, specHolds(op, x < y, x == y, x > y)))
	case vString:
		x, y := a.(string), b.(string)
		if op == 15 || op == 17 {
			vpEnsures("exact text comparison", is(got, err, vBool, specHolds(op, x < y, x == y, x > y)))
			return
		}
		if op >= 14 {
			vpEnsures("text comparison ignoring case", is(got, err, vBool, strings.EqualFold(x, y) == (op == 14)))
			return
		}
		x, y = strings.ToUpper(x), strings.ToUpper(y)
		vpEnsures("text order ignoring case", is(got, err, vBool, specHolds(op, x < y, x == y, x > y)))
	case vGuid:
		n := guid.Compare(a.(guid.Guid), b.(guid.Guid))
		vpEnsures("Guid comparison", is(got, err, vBool, specHolds(op, n < 0, n == 0, n > 0)))
	case vDateTime:
		x, y := a.(time.Time), b.(time.Time)
		vpEnsures("DateTime comparison", is(got, err, vBool, specHolds(op, x.Before(y), x.Equal(y), x.After(y))))
	}
}
