package data

import (
	"math/rand"
)

//verif:with common_value.go

// D06: bitwise, shift, logical and unary operators and the null tests,
// evaluated as an expression tree.

func gen_D06_bitwise(r *rand.Rand) (vpVal, vpVal, int) {
	return vpRandom(r), vpRandom(r), 7 + r.Intn(3)
}
func gen_D06_shift(r *rand.Rand) (vpVal, vpVal, bool) { return vpRandom(r), vpWhole(r), r.Intn(2) == 0 }
func gen_D06_logical(r *rand.Rand) (vpVal, vpVal, bool) {
	return vpRandom(r), vpRandom(r), r.Intn(2) == 0
}
func gen_D06_isNull(r *rand.Rand) (vpVal, vpVal, bool) {
	return vpRandom(r), vpRandom(r), r.Intn(2) == 0
}
func gen_D06_unary(r *rand.Rand) (vpVal, int) { return vpRandom(r), r.Intn(3) }

func operate(op int, l, r vpVal) (*ValueExpression, error) {
	tree := NewExpressionTree()
	tree.Root = NewOperatorExpression(ExpressionOperatorTypeEnum(op), l.expr(), r.expr())
	return tree.Evaluate(nil)
}

func contract_D06_bitwise(l, r vpVal, op int) {
	for o := 7; o <= 9; o++ {
		if op == o {
			vpKinds(l, r, func(l, r vpVal) { vpBitwise(o, l, r) })
			return
		}
	}
}

func vpBitwise(op int, l, r vpVal) {
	got, err := operate(op, l, r)
	l, r = l.typed(vBool), r.typed(vBool)
	if l.Kind > vInt64 || r.Kind > vInt64 {
		vpEnsures("operand types without bits are an error", err != nil)
		return
	}
	t := int(l.Kind)
	if r.Kind > l.Kind {
		t = int(r.Kind)
	}
	if l.Null || r.Null {
		vpEnsures("null operand gives null", is(got, err, t, nil))
		return
	}
	a, b := specInt(l), specInt(r)
	w := a & b
	if op == 8 {
		w = a | b
	} else if op == 9 {
		w = a ^ b
	}
	vpEnsures("bits", is(got, err, t, vpTyped(t, w)))
}

// vpTyped is a whole number as a value of a type.
func vpTyped(t int, w int64) any {
	switch t {
	case vBool:
		return w != 0
	case vInt32:
		return int32(w)
	}
	return w
}

func contract_D06_shift(l, r vpVal, right bool) {
	if right {
		vpKinds(l, r, func(l, r vpVal) { vpShift(6, l, r) })
	} else {
		vpKinds(l, r, func(l, r vpVal) { vpShift(5, l, r) })
	}
}

func vpShift(op int, l, r vpVal) {
	got, err := operate(op, l, r)
	l, r = l.typed(vBool), r.typed(vBool)
	if l.Null {
		vpEnsures("shifted null is null", is(got, err, int(l.Kind), nil))
		return
	}
	if l.Kind > vInt64 || r.Kind > vInt64 || r.Null {
		vpEnsures("operands that cannot be shifted are an error", err != nil)
		return
	}
	n := specInt(r)
	if n < 0 {
		// what a negative amount means is left open
		return
	}
	a := specInt(l)
	w := a >> uint64(n)
	if op == 5 {
		w = a << uint64(n)
	}
	vpEnsures("shifted value", is(got, err, int(l.Kind), vpTyped(int(l.Kind), w)))
}

func contract_D06_logical(l, r vpVal, or bool) {
	if or {
		vpKinds(l, r, func(l, r vpVal) { vpLogical(25, l, r) })
	} else {
		vpKinds(l, r, func(l, r vpVal) { vpLogical(24, l, r) })
	}
}

func vpLogical(op int, l, r vpVal) {
	got, err := operate(op, l, r)
	l, r = l.typed(vBool), r.typed(vBool)
	if l.Kind != vBool || r.Kind != vBool {
		vpEnsures("operands that are not Boolean are an error", err != nil)
		return
	}
	if l.Null || r.Null {
		vpEnsures("null operand gives null", is(got, err, vBool, nil))
		return
	}
	if op == 24 {
		vpEnsures("and", is(got, err, vBool, l.B && r.B))
		return
	}
	vpEnsures("or", is(got, err, vBool, l.B || r.B))
}

func contract_D06_isNull(l, r vpVal, not bool) {
	vpKinds(l, r, func(l, r vpVal) {
		if not {
			got, err := operate(19, l, r)
			vpEnsures("is not null", is(got, err, vBool, !l.Null && l.Kind != vUndefined))
			return
		}
		got, err := operate(18, l, r)
		vpEnsures("is null", is(got, err, vBool, l.Null || l.Kind == vUndefined))
	})
}

func contract_D06_unary(v vpVal, op int) {
	for o := 0; o <= 2; o++ {
		if op == o {
			vpKind(v, func(v vpVal) { vpUnary(o, v) })
			return
		}
	}
}

func vpUnary(op int, v vpVal) {
	tree := NewExpressionTree()
	tree.Root = NewUnaryExpression(ExpressionUnaryTypeEnum(op), v.expr())
	got, err := tree.Evaluate(nil)

	v = v.typed(vBool)
	if v.Null {
		vpEnsures("null operand gives null", is(got, err, int(v.Kind), nil))
		return
	}
	if v.Kind > vDouble || v.Kind == vBool && op != 2 || v.Kind >= vDecimal && op == 2 {
		vpEnsures("operand types without the operator are an error", err != nil)
		return
	}
	switch v.Kind {
	case vBool:
		vpEnsures("not", is(got, err, vBool, !v.B))
	case vInt32:
		vpEnsures("Int32 sign or complement", is(got, err, vInt32, [...]int32{int32(v.I), -int32(v.I), ^int32(v.I)}[op]))
	case vInt64:
		vpEnsures("Int64 sign or complement", is(got, err, vInt64, [...]int64{v.I, -v.I, ^v.I}[op]))
	case vDecimal:
		if op == 0 {
			vpEnsures("Decimal kept", is(got, err, vDecimal, v.dec()))
			return
		}
		vpEnsures("Decimal negated", is(got, err, vDecimal, v.dec().Neg()))
	case vDouble:
		if op == 0 {
			vpEnsures("Double kept", is(got, err, vDouble, v.F))
			return
		}
		vpEnsures("Double negated", is(got, err, vDouble, -v.F))
	}
}
