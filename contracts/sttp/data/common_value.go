package data

import (
	"math"
	"math/rand"
	"strconv"
	"time"

	"github.com/araddon/dateparse"
	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/guid"
)

// The value types, in the order of the enumeration.
const (
	vBool = iota
	vInt32
	vInt64
	vDecimal
	vDouble
	vString
	vGuid
	vDateTime
	vUndefined
)

// vpVal is a value of one of the value types: the field for its kind counts.
type vpVal struct {
	Kind byte
	Null bool
	B    bool
	I    int64
	E    int8
	F    float64
	S    string
	G    guid.Guid
	T    time.Time
}

func (v vpVal) dec() decimal.Decimal { return decimal.New(v.I, int32(v.E)) }

// expr is the value as an expression.
func (v vpVal) expr() *ValueExpression {
	k := ExpressionValueTypeEnum(v.Kind)
	if v.Null || v.Kind == vUndefined {
		return NewValueExpression(k, nil)
	}
	switch v.Kind {
	case vBool:
		return NewValueExpression(k, v.B)
	case vInt32:
		return NewValueExpression(k, int32(v.I))
	case vInt64:
		return NewValueExpression(k, v.I)
	case vDecimal:
		return NewValueExpression(k, v.dec())
	case vDouble:
		return NewValueExpression(k, v.F)
	case vString:
		return NewValueExpression(k, v.S)
	case vGuid:
		return NewValueExpression(k, v.G)
	}
	return NewValueExpression(k, v.T)
}

// is reports whether an evaluation gave the value w: a Go value of the type
// that belongs to kind, nil for null.
func is(got *ValueExpression, err error, kind int, w any) bool {
	if err != nil || got == nil || got.ValueType() != ExpressionValueTypeEnum(kind) {
		return false
	}
	v := got.Value()
	if w == nil || v == nil {
		return w == nil && v == nil
	}
	switch kind {
	case vBool:
		a, ok := v.(bool)
		return ok && a == w.(bool)
	case vInt32:
		a, ok := v.(int32)
		return ok && a == w.(int32)
	case vInt64:
		a, ok := v.(int64)
		return ok && a == w.(int64)
	case vDecimal:
		a, ok := v.(decimal.Decimal)
		return ok && sameDecimal(a, w.(decimal.Decimal))
	case vDouble:
		a, ok := v.(float64)
		b := w.(float64)
		return ok && (math.Float64bits(a) == math.Float64bits(b) || a != a && b != b)
	case vString:
		a, ok := v.(string)
		return ok && a == w.(string)
	case vGuid:
		a, ok := v.(guid.Guid)
		return ok && a == w.(guid.Guid)
	case vDateTime:
		a, ok := v.(time.Time)
		return ok && a.Equal(w.(time.Time)) && a.Location() == w.(time.Time).Location()
	}
	return false
}

func sameDecimal(a, b decimal.Decimal) bool {
	if vpConcrete() {
		return a.Equal(b)
	}
	return a == b
}

// specText is the text of a value that is not null.
func specText(v vpVal) string {
	switch v.Kind {
	case vBool:
		if v.B {
			return "true"
		}
		return "false"
	case vInt32:
		return strconv.FormatInt(int64(int32(v.I)), 10)
	case vInt64:
		return strconv.FormatInt(v.I, 10)
	case vDecimal:
		return v.dec().String()
	case vDouble:
		return strconv.FormatFloat(v.F, 'f', 6, 64)
	case vString:
		return v.S
	case vGuid:
		return v.G.String()
	}
	return v.T.Format("2006-01-02T15:04:05.99-07:00")
}

// specInt is the whole number of a value: true counts as one, fractions are
// cut off, a date counts in seconds since 1970, other text as zero.
func specInt(v vpVal) int64 {
	switch v.Kind {
	case vBool:
		if v.B {
			return 1
		}
		return 0
	case vInt32:
		return int64(int32(v.I))
	case vInt64:
		return v.I
	case vDecimal:
		return v.dec().IntPart()
	case vDouble:
		return int64(v.F)
	case vString:
		d, _ := decimal.NewFromString(v.S)
		return d.IntPart()
	}
	return v.T.Unix()
}

// specConvert is the value converted to another type; ok tells whether such a
// conversion exists.
func specConvert(v vpVal, to int) (w any, ok bool) {
	if v.Kind == vGuid && to != vGuid && to != vString {
		return nil, false
	}
	switch to {
	case vBool:
		switch v.Kind {
		case vBool:
			return v.B, true
		case vDecimal:
			return !v.dec().Equal(decimal.Zero), true
		case vDouble:
			return v.F != 0, true
		case vString:
			b, _ := strconv.ParseBool(v.S)
			return b, true
		}
		return specInt(v) != 0, true
	case vInt32:
		if v.Kind == vDouble {
			return int32(v.F), true
		}
		return int32(specInt(v)), true
	case vInt64:
		return specInt(v), true
	case vDecimal:
		switch v.Kind {
		case vDecimal:
			return v.dec(), true
		case vDouble:
			return decimal.NewFromFloat(v.F), true
		case vString:
			d, _ := decimal.NewFromString(v.S)
			return d, true
		}
		return decimal.NewFromInt(specInt(v)), true
	case vDouble:
		switch v.Kind {
		case vDecimal:
			f, _ := v.dec().Float64()
			return f, true
		case vDouble:
			return v.F, true
		case vString:
			f, _ := strconv.ParseFloat(v.S, 64)
			return f, true
		}
		return float64(specInt(v)), true
	case vString:
		return specText(v), true
	case vGuid:
		if v.Kind == vGuid {
			return v.G, true
		}
		if v.Kind == vString {
			g, _ := guid.Parse(v.S)
			return g, true
		}
		return nil, false
	case vDateTime:
		if v.Kind == vDateTime {
			return v.T, true
		}
		if v.Kind == vString {
			t, _ := dateparse.ParseAny(v.S)
			return t.UTC(), true
		}
		return nil, false
	}
	return nil, false
}

// Decimals and times are compared by their place in an order.
func decCmp(a, b decimal.Decimal) int {
	return order(vpPure[int64]("decimalOrder", a), vpPure[int64]("decimalOrder", b))
}

func timeCmp(a, b time.Time) int {
	return order(vpPure[int64]("timeOrder", a), vpPure[int64]("timeOrder", b))
}

func order(a, b int64) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

// The decimal library panics on a zero divisor.

//verif:for (github.com/shopspring/decimal.Decimal).Div
func sum_decDiv(a, b decimal.Decimal) decimal.Decimal {
	vpEnsures("decimal divisor is not zero", decCmp(b, decimal.Zero) != 0)
	return vpPure[decimal.Decimal]("div", a, b)
}

//verif:for (github.com/shopspring/decimal.Decimal).Mod
func sum_decMod(a, b decimal.Decimal) decimal.Decimal {
	vpEnsures("decimal divisor is not zero", decCmp(b, decimal.Zero) != 0)
	return vpPure[decimal.Decimal]("mod", a, b)
}

//verif:for (github.com/shopspring/decimal.Decimal).Cmp
//verif:for (github.com/shopspring/decimal.Decimal).Compare
func sum_decCmp(a, b decimal.Decimal) int { return decCmp(a, b) }

//verif:for (github.com/shopspring/decimal.Decimal).Equal
//verif:for (github.com/shopspring/decimal.Decimal).Equals
func sum_decEqual(a, b decimal.Decimal) bool { return decCmp(a, b) == 0 }

//verif:for (github.com/shopspring/decimal.Decimal).LessThan
func sum_decLessThan(a, b decimal.Decimal) bool { return decCmp(a, b) < 0 }

//verif:for (github.com/shopspring/decimal.Decimal).LessThanOrEqual
func sum_decLessThanOrEqual(a, b decimal.Decimal) bool { return decCmp(a, b) <= 0 }

//verif:for (github.com/shopspring/decimal.Decimal).GreaterThan
func sum_decGreaterThan(a, b decimal.Decimal) bool { return decCmp(a, b) > 0 }

//verif:for (github.com/shopspring/decimal.Decimal).GreaterThanOrEqual
func sum_decGreaterThanOrEqual(a, b decimal.Decimal) bool { return decCmp(a, b) >= 0 }

//verif:for (github.com/shopspring/decimal.Decimal).IsZero
func sum_decIsZero(a decimal.Decimal) bool { return decCmp(a, decimal.Zero) == 0 }

//verif:for (github.com/shopspring/decimal.Decimal).IsNegative
func sum_decIsNegative(a decimal.Decimal) bool { return decCmp(a, decimal.Zero) < 0 }

//verif:for (github.com/shopspring/decimal.Decimal).IsPositive
func sum_decIsPositive(a decimal.Decimal) bool { return decCmp(a, decimal.Zero) > 0 }

//verif:for (github.com/shopspring/decimal.Decimal).Sign
func sum_decSign(a decimal.Decimal) int { return decCmp(a, decimal.Zero) }

//verif:for (time.Time).Before
func sum_timeBefore(a, b time.Time) bool { return timeCmp(a, b) < 0 }

//verif:for (time.Time).After
func sum_timeAfter(a, b time.Time) bool { return timeCmp(a, b) > 0 }

//verif:for (time.Time).Equal
func sum_timeEqual(a, b time.Time) bool { return timeCmp(a, b) == 0 }

//verif:for (time.Time).Compare
func sum_timeCompare(a, b time.Time) int { return timeCmp(a, b) }

//verif:for (github.com/shopspring/decimal.Decimal).Neg
func sum_decNeg(a decimal.Decimal) decimal.Decimal { return a.Mul(decimal.NewFromInt(-1)) }

// Only a finite number has a decimal.
//
//verif:for github.com/shopspring/decimal.NewFromFloat
func sum_decFromFloat(f float64) decimal.Decimal {
	vpEnsures("decimal of a finite number", !math.IsNaN(f) && !math.IsInf(f, 0))
	return vpPure[decimal.Decimal]("fromFloat", f)
}

//verif:for strconv.FormatBool
func sum_formatBool(b bool) string {
	if b {
		return "true"
	}
	return "false"
}

// The integer formats are one function of the value.

//verif:for strconv.Itoa
func sum_itoa(i int) string { return strconv.FormatInt(int64(i), 10) }

// vpKinds takes the kinds of two values one by one.
func vpKinds(l, r vpVal, f func(l, r vpVal)) {
	for a := byte(0); a <= vUndefined; a++ {
		for b := byte(0); b <= vUndefined; b++ {
			if l.Kind == a && r.Kind == b {
				l.Kind, r.Kind = a, b
				f(l, r)
				return
			}
		}
	}
}

func vpRandom(r *rand.Rand) vpVal {
	v := vpVal{Kind: byte(r.Intn(9)), Null: r.Intn(10) == 0, B: r.Intn(2) == 0, E: int8(r.Intn(5) - 2), T: time.Unix(r.Int63n(1<<32), 0).UTC(), G: guid.New()}
	switch r.Intn(4) {
	case 0:
		v.I = int64(r.Intn(5) - 2)
	case 1:
		v.I = []int64{math.MinInt64, math.MaxInt64, math.MinInt32, math.MaxInt32}[r.Intn(4)]
	default:
		v.I = int64(r.Intn(2000) - 1000)
	}
	v.F = float64(v.I) / 4
	if r.Intn(10) == 0 {
		v.F = []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[r.Intn(3)]
	}
	v.S = []string{"", "a", "A", "b", "ab", "aB", "true", "1", "-7", "2.5", v.G.String(), "2021-01-01", "2021-06-01T10:00:00+02:00"}[r.Intn(13)]
	return v
}

// call evaluates a function of the expression syntax on values.
func call(fn ExpressionFunctionTypeEnum, args ...vpVal) (*ValueExpression, error) {
	var list []Expression
	for _, a := range args {
		list = append(list, a.expr())
	}
	tree := NewExpressionTree()
	tree.Root = NewFunctionExpression(fn, list)
	return tree.Evaluate(nil)
}

// typed turns a null without type into a null of a type.
func (v vpVal) typed(kind byte) vpVal {
	if v.Kind == vUndefined {
		v.Kind, v.Null = kind, true
	}
	return v
}

// vpKind takes the kinds of a value one by one.
func vpKind(v vpVal, f func(v vpVal)) {
	for a := byte(0); a <= vUndefined; a++ {
		if v.Kind == a {
			v.Kind = a
			f(v)
			return
		}
	}
}

// vpText is a random text value, now and then one of another type.
func vpText(r *rand.Rand) vpVal {
	v := vpRandom(r)
	if r.Intn(10) > 0 {
		v.Kind = vString
		v.S = []string{"", "a", "A", "b", "ab", "aB", "abab", "aa", "a,b", ",a,B", "x y", " x ", "$1", "*", "a*", "*b", "%a%", "a*b", "AB"}[r.Intn(19)]
	}
	return v
}

// vpWhole is a random whole number, now and then one of another type.
func vpWhole(r *rand.Rand) vpVal {
	v := vpRandom(r)
	if r.Intn(10) > 0 {
		v.Kind = byte(1 + r.Intn(2))
		if r.Intn(4) > 0 {
			v.I = int64(r.Intn(6) - 1)
		}
	}
	return v
}

//verif:for strings.Compare
func sum_compare(a, b string) int {
	if a == b {
		return 0
	}
	if a < b {
		return -1
	}
	return 1
}

//verif:for github.com/shopspring/decimal.NewFromInt32
func sum_decFromInt32(i int32) decimal.Decimal { return decimal.NewFromInt(int64(i)) }
