package data

import (
	"math"
	"math/rand"
)

//verif:with common_value.go
//verif:with common_table.go

// D04: columns in filter expressions.

func gen_D04_column(r *rand.Rand) (int, int, int, vpVal) {
	n, p, kind := vpPlace(r)
	return n, p, kind, vpRandom(r)
}

func contract_D04_column(n, p, kind int, v vpVal) {
	vpRequires(p >= 0 && p < n && n < 1<<30)
	vpColumnKinds(kind, func(kind int) {
		t := vpTable(n, p, "column", kind, "")
		tree := NewExpressionTree()
		tree.Root = NewColumnExpression(t.Column(p))
		_, err := tree.Evaluate(nil)
		vpEnsures("a column needs a row", err != nil)
		got, err := tree.Evaluate(vpRow(t, p, kind, v))
		to := [...]int{vString, vBool, vDateTime, vDouble, vDouble, vDecimal, vGuid, vInt32, vInt32, vInt32, vInt64, vInt32, vInt32, vInt64, vInt64}[kind]
		if v.Null {
			vpEnsures("null of the column", is(got, err, to, nil))
			return
		}
		var want any
		switch c := cellValue(kind, v).(type) {
		case float32:
			want = float64(c)
		case int8:
			want = int32(c)
		case int16:
			want = int32(c)
		case uint8:
			want = int32(c)
		case uint16:
			want = int32(c)
		case uint32:
			want = int64(c)
		case uint64:
			if c > math.MaxInt64 {
				vpEnsures("large number of the column", is(got, err, vDouble, float64(c)))
				return
			}
			want = int64(c)
		default:
			want = c
		}
		vpEnsures("value of the column", is(got, err, to, want))
	})
}
