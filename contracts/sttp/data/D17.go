package data

import (
	"math"
	"math/rand"

	"github.com/shopspring/decimal"
)

//verif:with common_value.go

// D17: numeric functions of filter expressions.

func gen_D17_single(r *rand.Rand) (vpVal, int) { return vpRandom(r), r.Intn(5) }
func gen_D17_power(r *rand.Rand) (vpVal, vpVal) {
	v, n := vpRandom(r), vpRandom(r)
	n.I, n.E, n.F = int64(r.Intn(7)-3), 0, float64(n.I)
	if r.Intn(2) == 0 {
		v.I = int64(r.Intn(5) - 2)
	}
	return v, n
}

//verif:for (github.com/shopspring/decimal.Decimal).Pow
func sum_decPow(a, b decimal.Decimal) decimal.Decimal {
	vpEnsures("power of the decimal exists", a.Sign() != 0 || b.Sign() >= 0)
	return vpPure[decimal.Decimal]("pow", a, b)
}

func contract_D17_single(v vpVal, fn int) {
	vpRequires(fn >= 0 && fn <= 4)
	for f := 0; f <= 4; f++ {
		if fn == f {
			vpKind(v, func(v vpVal) { vpNumeric(f, v) })
			return
		}
	}
}

func vpNumeric(fn int, v vpVal) {
	got, err := call([...]ExpressionFunctionTypeEnum{ExpressionFunctionType.Abs, ExpressionFunctionType.Ceiling, ExpressionFunctionType.Floor,
		ExpressionFunctionType.Round, ExpressionFunctionType.Sqrt}[fn], v)
	v = v.typed(vDouble)
	if v.Kind > vDouble {
		vpEnsures("argument that is not numeric is an error", err != nil)
		return
	}
	if v.Null {
		vpEnsures("null stays null", is(got, err, int(v.Kind), nil))
		return
	}
	if fn == 4 {
		f, _ := specConvert(v, vDouble)
		vpEnsures("square root", is(got, err, vDouble, math.Sqrt(f.(float64))))
		return
	}
	switch v.Kind {
	case vBool:
		vpEnsures("Boolean kept", is(got, err, vBool, v.B))
	case vInt32, vInt64:
		n := specInt(v)
		if fn == 0 && n < 0 {
			n = -n
		}
		if v.Kind == vInt32 {
			vpEnsures("Int32 result", is(got, err, vInt32, int32(n)))
			return
		}
		vpEnsures("Int64 result", is(got, err, vInt64, n))
	case vDecimal:
		d := v.dec()
		switch fn {
		case 0:
			d = d.Abs()
		case 1:
			d = d.Ceil()
		case 2:
			d = d.Floor()
		case 3:
			d = d.Round(0)
		}
		vpEnsures("Decimal result", is(got, err, vDecimal, d))
	case vDouble:
		f := v.F
		switch fn {
		case 0:
			f = math.Abs(f)
		case 1:
			f = math.Ceil(f)
		case 2:
			f = math.Floor(f)
		case 3:
			f = math.Round(f)
		}
		vpEnsures("Double result", is(got, err, vDouble, f))
	}
}

func contract_D17_power(v, n vpVal) {
	vpKinds(v, n, func(v, n vpVal) {
		if vpConcrete() { // decimal powers take too long otherwise
			vpRequires(n.I >= -9 && n.I <= 9 && n.E >= -9 && n.E <= 0 && v.E >= -9 && v.E <= 9)
		}
		got, err := call(ExpressionFunctionType.Power, v, n)
		v, n = v.typed(vDouble), n.typed(vInt32)
		if v.Kind > vDouble || n.Kind > vDouble {
			vpEnsures("arguments that are not numeric are an error", err != nil)
			return
		}
		if v.Null || n.Null {
			vpEnsures("null argument gives null", is(got, err, int(v.Kind), nil))
			return
		}
		t := int(v.Kind)
		if n.Kind > v.Kind {
			t = int(n.Kind)
		}
		a, _ := specConvert(v, t)
		b, _ := specConvert(n, t)
		switch t {
		case vBool:
			x, y := int32(0), int32(0)
			if v.B {
				x = 1
			}
			if n.B {
				y = 1
			}
			vpEnsures("Boolean power", is(got, err, vBool, math.Pow(float64(x), float64(y)) != 0))
		case vInt32:
			vpEnsures("Int32 power", is(got, err, vInt32, int32(math.Pow(float64(a.(int32)), float64(b.(int32))))))
		case vInt64:
			vpEnsures("Int64 power", is(got, err, vInt64, int64(math.Pow(float64(a.(int64)), float64(b.(int64))))))
		case vDecimal:
			x, y := a.(decimal.Decimal), b.(decimal.Decimal)
			if x.Sign() == 0 && y.Sign() < 0 {
				vpEnsures("negative power of zero is an error", err != nil)
				return
			}
			vpEnsures("Decimal power", is(got, err, vDecimal, x.Pow(y)))
		case vDouble:
			vpEnsures("Double power", is(got, err, vDouble, math.Pow(a.(float64), b.(float64))))
		}
	})
}
