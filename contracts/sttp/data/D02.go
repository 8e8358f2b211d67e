package data

import (
	"math/rand"

	"github.com/shopspring/decimal"
)

//verif:with common_value.go

// D02: arithmetic of filter expressions, evaluated as an expression tree.

// specArithmetic is the type of an arithmetic result; ok tells whether the
// operation exists for the operand types.
func specArithmetic(op, l, r int) (t int, ok bool) {
	if op == 2 {
		// the modulus is for integers
		if l > vInt64 || r > vInt64 {
			return 0, false
		}
	} else if op == 3 && (l == vString || r == vString && l <= vDouble) {
		return vString, true
	} else if l > vDouble || r > vDouble {
		return 0, false
	}
	if l > r {
		return l, true
	}
	return r, true
}

func gen_D02_multiply(r *rand.Rand) (vpVal, vpVal) { return vpRandom(r), vpRandom(r) }
func gen_D02_divide(r *rand.Rand) (vpVal, vpVal)   { return vpRandom(r), vpRandom(r) }
func gen_D02_modulus(r *rand.Rand) (vpVal, vpVal)  { return vpRandom(r), vpRandom(r) }
func gen_D02_add(r *rand.Rand) (vpVal, vpVal)      { return vpRandom(r), vpRandom(r) }
func gen_D02_subtract(r *rand.Rand) (vpVal, vpVal) { return vpRandom(r), vpRandom(r) }

func contract_D02_multiply(l, r vpVal) {
	vpKinds(l, r, func(l, r vpVal) { vpArithmetic(0, l, r) })
}

func contract_D02_divide(l, r vpVal) {
	vpKinds(l, r, func(l, r vpVal) { vpArithmetic(1, l, r) })
}

func contract_D02_modulus(l, r vpVal) {
	vpKinds(l, r, func(l, r vpVal) { vpArithmetic(2, l, r) })
}

func contract_D02_add(l, r vpVal) {
	vpKinds(l, r, func(l, r vpVal) { vpArithmetic(3, l, r) })
}

func contract_D02_subtract(l, r vpVal) {
	vpKinds(l, r, func(l, r vpVal) { vpArithmetic(4, l, r) })
}

func vpArithmetic(op int, l, r vpVal) {
	le, re := l.expr(), r.expr()
	if l.Kind == vUndefined {
		l.Kind, l.Null = vBool, true
	}
	if r.Kind == vUndefined {
		r.Kind, r.Null = vBool, true
	}
	tree := NewExpressionTree()
	tree.Root = NewOperatorExpression(ExpressionOperatorTypeEnum(op), le, re)

	got, err := tree.Evaluate(nil)

	t, ok := specArithmetic(op, int(l.Kind), int(r.Kind))
	if !ok {
		vpEnsures("operand types without arithmetic are an error", err != nil)
		return
	}
	if l.Null || r.Null {
		vpEnsures("null operand gives null", is(got, err, t, nil))
		return
	}
	a, _ := specConvert(l, t)
	b, _ := specConvert(r, t)
	switch t {
	case vBool:
		if op <= 2 {
			vpEnsures("Boolean operands have no product", err != nil)
			return
		}
		if op == 3 {
			vpEnsures("Boolean sum", is(got, err, t, a.(bool) || b.(bool)))
			return
		}
		vpEnsures("Boolean difference", is(got, err, t, a.(bool) != b.(bool)))
	case vInt32:
		x, y := a.(int32), b.(int32)
		if (op == 1 || op == 2) && y == 0 {
			vpEnsures("division by zero is an error", err != nil)
			return
		}
		w := [...]int32{x * y, 0, 0, x + y, x - y}[op]
		if op == 1 {
			w = x / y
		} else if op == 2 {
			w = x % y
		}
		vpEnsures("Int32 result", is(got, err, t, w))
	case vInt64:
		x, y := a.(int64), b.(int64)
		if (op == 1 || op == 2) && y == 0 {
			vpEnsures("division by zero is an error", err != nil)
			return
		}
		w := [...]int64{x * y, 0, 0, x + y, x - y}[op]
		if op == 1 {
			w = x / y
		} else if op == 2 {
			w = x % y
		}
		vpEnsures("Int64 result", is(got, err, t, w))
	case vDecimal:
		x, y := a.(decimal.Decimal), b.(decimal.Decimal)
		if op == 1 && y.IsZero() {
			vpEnsures("division by zero is an error", err != nil)
			return
		}
		var w decimal.Decimal
		switch op {
		case 0:
			w = x.Mul(y)
		case 1:
			w = x.Div(y)
		case 3:
			w = x.Add(y)
		case 4:
			w = x.Sub(y)
		}
		vpEnsures("Decimal result", is(got, err, t, w))
	case vDouble:
		x, y := a.(float64), b.(float64)
		var w float64
		switch op {
		case 0:
			w = x * y
		case 1:
			w = x / y
		case 3:
			w = x + y
		case 4:
			w = x - y
		}
		vpEnsures("Double result", is(got, err, t, w))
	case vString:
		vpEnsures("text is joined", is(got, err, t, a.(string)+b.(string)))
	}
}
