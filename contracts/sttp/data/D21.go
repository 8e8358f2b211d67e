package data

import (
	"math/rand"
	"time"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/guid"
)

//verif:with common_value.go
//verif:with common_table.go

// D21: values read by type, rows found by a predicate, copies of rows and
// columns.

// vpTyped reads the value of an expression as a type.
func vpTyped(ve *ValueExpression, as int) (any, error) {
	switch as {
	case vBool:
		return ve.BooleanValue()
	case vInt32:
		return ve.Int32Value()
	case vInt64:
		return ve.Int64Value()
	case vDecimal:
		return ve.DecimalValue()
	case vDouble:
		return ve.DoubleValue()
	case vString:
		return ve.StringValue()
	case vGuid:
		return ve.GuidValue()
	default:
		return ve.DateTimeValue()
	}
}

func vpZero(as int) any {
	switch as {
	case vBool:
		return false
	case vInt32:
		return int32(0)
	case vInt64:
		return int64(0)
	case vDecimal:
		return decimal.Zero
	case vDouble:
		return float64(0)
	case vString:
		return ""
	case vGuid:
		return guid.Empty
	default:
		return time.Time{}
	}
}

func gen_D21_value(r *rand.Rand) (vpVal, byte) {
	v := vpRandom(r)
	if r.Intn(2) == 0 {
		return v, v.Kind
	}
	return v, byte(r.Intn(8))
}

// A value is read by its own type only; null is the zero value.
func contract_D21_value(v vpVal, as byte) {
	vpRequires(as < vUndefined)
	vpKind(v, func(v vpVal) {
		for t := 0; t < vUndefined; t++ {
			if int(as) != t {
				continue
			}
			ve := v.expr()
			got, err := vpTyped(ve, t)
			if int(v.Kind) != t {
				vpEnsures("another type is an error", err != nil)
				return
			}
			want := ve.Value()
			if v.Null {
				want = vpZero(t)
			}
			vpEnsures("value", is(newValueExpression(ExpressionValueTypeEnum(t), got), err, t, want))
			vpEnsures("null", ve.IsNull() == v.Null)
		}
	})
}

func gen_D21_where(r *rand.Rand) (int, [4]bool, [4]bool, int) {
	var a, b [4]bool
	for i := range a {
		a[i], b[i] = r.Intn(4) > 0, r.Intn(3) > 0
	}
	return r.Intn(5), a, b, r.Intn(7) - 2
}

// Rows found by a predicate.
//
//verif:bounded tables of up to four rows
func contract_D21_where(n int, present, match [4]bool, limit int) {
	vpRequires(n >= 0 && n <= 4)
	for k := 0; k <= 4; k++ {
		if k == n {
			vpWhere(k, present, match, limit)
			return
		}
	}
}

func vpWhere(n int, present, match [4]bool, limit int) {
	t := NewDataSet().CreateTable("t")
	var rows [4]*DataRow
	for i := 0; i < n; i++ {
		rows[i] = t.CreateRow()
		if present[i] {
			t.AddRow(rows[i])
		} else {
			t.AddRow(nil)
		}
	}
	asked := 0
	got := t.RowsWhere(func(row *DataRow) bool {
		asked++
		for i := 0; i < n; i++ {
			if row == rows[i] {
				return match[i]
			}
		}
		return false
	}, limit)
	found := 0
	for i := 0; i < n; i++ {
		if present[i] && match[i] && (limit < 0 || found < limit) {
			vpEnsures("matching row", found < len(got) && got[found] == rows[i])
			found++
		}
	}
	vpEnsures("no other row", len(got) == found)
	vpEnsures("table unchanged", t.RowCount() == n)
}

func gen_D21_copy(r *rand.Rand) (int, int, vpVal, int) {
	_, _, kind := vpPlace(r)
	return r.Intn(3), kind, vpRandom(r), r.Intn(4) - 1
}

// Copies have the values and settings of what they were made from.
//
//verif:bounded tables of three columns
func contract_D21_copy(p, kind int, v vpVal, index int) {
	vpRequires(p >= 0 && p < 3)
	vpColumnKinds(kind, func(kind int) {
		for q := 0; q < 3; q++ {
			if p == q {
				vpCloned(q, kind, v, index)
			}
		}
	})
}

func vpCloned(p, kind int, v vpVal, index int) {
	t := NewDataSet().CreateTable("table")
	for i := 0; i < 3; i++ {
		if i == p {
			t.AddColumn(t.CreateColumn("column", DataTypeEnum(kind), ""))
		} else {
			t.AddColumn(t.CreateColumn([]string{"a", "b", "c"}[i], DataType.Int32, ""))
		}
	}
	row := vpRow(t, p, kind, v)
	c := t.CloneRow(row)
	vpEnsures("new row of the table", c != row && c.Parent() == t && t.RowCount() == 0)
	got, err := c.Value(p)
	vpEnsures("same value", err == nil && isCell(kind, got, cellValue(kind, v)))
	t.AddRow(row)
	vpEnsures("text of the row", t.RowValueAsString(0, p) == row.ValueAsString(p) && t.RowValueAsStringByName(0, "Column") == row.ValueAsString(p))
	if index != 0 {
		vpEnsures("no row no text", t.RowValueAsString(index, p) == "" && t.RowValueAsStringByName(index, "column") == "")
	}
	c.SetValue(p, nil)
	got, err = row.Value(p)
	vpEnsures("source unchanged", err == nil && isCell(kind, got, cellValue(kind, v)))
	k := t.CloneColumn(t.Column(p))
	vpEnsures("column", k != t.Column(p) && k.Name() == "column" && k.Type() == t.Column(p).Type() && k.Expression() == "" && !k.computed && k.Parent() == t)
	e := t.CloneColumn(t.CreateColumn("sum", DataTypeEnum(kind), "1 + 2"))
	vpEnsures("computed column", e.Name() == "sum" && e.Type() == DataTypeEnum(kind) && e.Expression() == "1 + 2" && e.computed && e.Parent() == t)
}
