package data

import (
	"math/rand"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/guid"
)

//verif:with common_value.go

// D09: IN lists of filter expressions.

func gen_D09_in(r *rand.Rand) (vpVal, [3]vpVal, bool, bool) {
	v := vpRandom(r)
	l := [3]vpVal{vpRandom(r), vpRandom(r), vpRandom(r)}
	for i := range l {
		if r.Intn(2) == 0 {
			l[i].Kind = v.Kind
		}
		if r.Intn(3) == 0 {
			l[i] = v
		}
	}
	return v, l, r.Intn(2) == 0, r.Intn(2) == 0
}
func gen_D09_pair(r *rand.Rand) (vpVal, vpVal, bool, bool) {
	return vpRandom(r), vpRandom(r), r.Intn(2) == 0, r.Intn(2) == 0
}

// specSame tells whether two values of a type count as the same.
func specSame(t int, a, b any, exact bool) bool {
	switch t {
	case vBool:
		return a.(bool) == b.(bool)
	case vInt32:
		return a.(int32) == b.(int32)
	case vInt64:
		return a.(int64) == b.(int64)
	case vDecimal:
		return a.(decimal.Decimal).Equal(b.(decimal.Decimal))
	case vDouble:
		return a.(float64) == b.(float64)
	case vString:
		if exact {
			return a.(string) == b.(string)
		}
		return strings.EqualFold(a.(string), b.(string))
	case vGuid:
		return a.(guid.Guid) == b.(guid.Guid)
	}
	return a.(time.Time).Equal(b.(time.Time))
}

func inList(v vpVal, list []vpVal, not, exact bool) (*ValueExpression, error) {
	var args []Expression
	for _, a := range list {
		args = append(args, a.expr())
	}
	tree := NewExpressionTree()
	tree.Root = NewInListExpression(v.expr(), args, not, exact)
	return tree.Evaluate(nil)
}

// A list of one value of any type.
func contract_D09_pair(v, w vpVal, not, exact bool) {
	vpKinds(v, w, func(v, w vpVal) {
		got, err := inList(v, []vpVal{w}, not, exact)
		v, w = v.typed(vBool), w.typed(vBool)
		if v.Null {
			vpEnsures("null is neither in the list nor not", is(got, err, vBool, nil))
			return
		}
		t := int(v.Kind)
		switch {
		case v.Kind == vString || v.Kind == w.Kind:
		case w.Kind == vString:
			if v.Kind == vInt32 || v.Kind == vInt64 {
				t = vDecimal
			}
		case v.Kind > vDouble || w.Kind > vDouble:
			vpEnsures("types without comparison are an error", err != nil)
			return
		case w.Kind > v.Kind:
			t = int(w.Kind)
		}
		if w.Null {
			vpEnsures("null in the list is no match", is(got, err, vBool, not))
			return
		}
		a, _ := specConvert(v, t)
		b, _ := specConvert(w, t)
		vpEnsures("found", is(got, err, vBool, specSame(t, a, b, exact) != not))
	})
}

// A list of three values of the type of the value.
//
//verif:bounded three list values
func contract_D09_in(v vpVal, list [3]vpVal, not, exact bool) {
	vpRequires(!v.Null)
	for i := range list {
		vpRequires(list[i].Kind == v.Kind)
	}
	vpKind(v, func(v vpVal) {
		if v.Kind == vUndefined {
			return
		}
		for i := range list {
			list[i].Kind = v.Kind
		}
		got, err := inList(v, list[:], not, exact)
		a, _ := specConvert(v, int(v.Kind))
		found := false
		for i := range list {
			b, _ := specConvert(list[i], int(v.Kind))
			if !list[i].Null && specSame(int(v.Kind), a, b, exact) {
				found = true
			}
		}
		vpEnsures("found in the list", is(got, err, vBool, found != not))
	})
}
