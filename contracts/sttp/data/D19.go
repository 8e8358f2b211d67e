package data

import (
	"math"
	"math/rand"
	"strconv"
	"strings"

	"github.com/araddon/dateparse"
	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/guid"
)

//verif:with common_value.go
//verif:with common_text.go

// D19: IsDate, IsInteger, IsGuid, IsNumeric and Convert.

func gen_D19_test(r *rand.Rand) (vpVal, int) { return vpRandom(r), r.Intn(4) }
func gen_D19_convert(r *rand.Rand) (vpVal, vpVal) {
	v, t := vpRandom(r), vpRandom(r)
	if r.Intn(8) > 0 {
		t.Kind = vString
		t.S = []string{"Boolean", "int32", "INT64", "Decimal", "double", "String", "Guid", "DateTime", "Undefined", "System.Int32", "System.", "single", "float", "FLOAT32",
			"bool", "int16", "UInt8", "date", "TIME", "uuid", "", "text"}[r.Intn(22)]
	}
	return v, t
}

func contract_D19_test(v vpVal, fn int) {
	vpRequires(fn >= 0 && fn <= 3)
	for f := 0; f <= 3; f++ {
		if fn == f {
			vpKind(v, func(v vpVal) { vpIsOfType(f, v) })
			return
		}
	}
}

func vpIsOfType(fn int, v vpVal) {
	got, err := call([...]ExpressionFunctionTypeEnum{ExpressionFunctionType.IsDate, ExpressionFunctionType.IsInteger, ExpressionFunctionType.IsGuid, ExpressionFunctionType.IsNumeric}[fn], v)
	v = v.typed(vBool)
	if v.Null {
		vpEnsures("null is of no type", is(got, err, vBool, false))
		return
	}
	var ok bool
	switch fn {
	case 0:
		ok = v.Kind == vDateTime
		if v.Kind == vString {
			_, e := dateparse.ParseAny(v.S)
			ok = e == nil
		}
	case 1:
		ok = v.Kind <= vInt64
		if v.Kind == vString {
			_, e := strconv.ParseInt(v.S, 0, 64)
			ok = e == nil
		}
	case 2:
		ok = v.Kind == vGuid
		if v.Kind == vString {
			_, e := guid.Parse(v.S)
			ok = e == nil
		}
	case 3:
		ok = v.Kind <= vDouble
		if v.Kind == vString {
			_, e := strconv.ParseFloat(v.S, 64)
			_, d := decimal.NewFromString(v.S)
			ok = e == nil || d == nil
		}
	}
	vpEnsures("type test", is(got, err, vBool, ok))
}

// specTypeName is the type a name in Convert stands for, or -1.
func specTypeName(name string) int {
	name = strings.ToUpper(name)
	if strings.HasPrefix(name, "SYSTEM.") && len(name) > 7 {
		name = name[7:]
	}
	for i, n := range []string{"BOOLEAN", "INT32", "INT64", "DECIMAL", "DOUBLE", "STRING", "GUID", "DATETIME"} {
		if name == n {
			return i
		}
	}
	switch {
	case name == "UNDEFINED":
		return -1
	case name == "SINGLE" || strings.HasPrefix(name, "FLOAT"):
		return vDouble
	case name == "BOOL":
		return vBool
	case strings.HasPrefix(name, "INT") || strings.HasPrefix(name, "UINT"):
		return vInt64
	case name == "DATE" || name == "TIME":
		return vDateTime
	case name == "UUID":
		return vGuid
	}
	return -1
}

func contract_D19_convert(v, name vpVal) {
	vpKinds(v, name, func(v, name vpVal) {
		got, err := call(ExpressionFunctionType.Convert, v, name)
		v, name = v.typed(vBool), name.typed(vString)
		if name.Kind != vString || name.Null {
			vpEnsures("type name that is not text is an error", err != nil)
			return
		}
		to := specTypeName(name.S)
		for t := 0; t <= vDateTime; t++ {
			if to == t {
				vpConverted(v, t, got, err)
				return
			}
		}
		vpEnsures("unknown type name is an error", err != nil)
	})
}

func vpConverted(v vpVal, to int, got *ValueExpression, err error) {
	if v.Null {
		vpEnsures("null stays null", is(got, err, to, nil))
		return
	}
	if v.Kind == vDouble && to == vDecimal && (math.IsNaN(v.F) || math.IsInf(v.F, 0)) {
		vpEnsures("a number that is not finite has no decimal", err != nil)
		return
	}
	w, ok := specConvert(v, to)
	if !ok {
		vpEnsures("types without conversion are an error", err != nil)
		return
	}
	vpEnsures("converted value", is(got, err, to, w))
}
