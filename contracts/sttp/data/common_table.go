package data

import (
	"math"
	"math/rand"
	"strconv"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/guid"
)

// The column types, in the order of the enumeration.
const (
	cString = iota
	cBool
	cDateTime
	cSingle
	cDouble
	cDecimal
	cGuid
	cInt8
	cInt16
	cInt32
	cInt64
	cUInt8
	cUInt16
	cUInt32
	cUInt64
)

// vpTree is the tree of the expression of the computed column.
var vpTree *ExpressionTree

//verif:for github.com/sttp/goapi/sttp/data.GenerateExpressionTree
func sum_generate(table *DataTable, text string, suppress bool) (*ExpressionTree, error) {
	return vpTree, nil
}

// vpTable is a table of n columns of which column p has a name, type and
// expression, nothing being known of the others.
func vpTable(n, p int, name string, kind int, expression string) *DataTable {
	t := NewDataSet().CreateTable("table")
	c := t.CreateColumn(name, DataTypeEnum(kind), expression)
	if vpConcrete() {
		vpRequires(n < 1000)
		for i := 0; i < n; i++ {
			if i == p {
				t.AddColumn(c)
			} else {
				t.AddColumn(t.CreateColumn("other "+strconv.Itoa(i), DataTypeEnum(i%15), ""))
			}
		}
		return t
	}
	t.columns = vpAny[[]*DataColumn]()
	vpRequires(len(t.columns) == n)
	c.index = p
	t.columns[p] = c
	t.columnIndexes = vpAny[map[string]int]()
	t.columnIndexes[strings.ToUpper(name)] = p
	return t
}

// vpRow is a row with a value in column p.
func vpRow(t *DataTable, p, kind int, v vpVal) *DataRow {
	row := t.CreateRow()
	row.SetValue(p, cellValue(kind, v))
	return row
}

// cellValue is a value for a column type.
func cellValue(kind int, v vpVal) any {
	if v.Null {
		return nil
	}
	switch kind {
	case cString:
		return v.S
	case cBool:
		return v.B
	case cDateTime:
		return v.T
	case cSingle:
		return float32(v.F)
	case cDouble:
		return v.F
	case cDecimal:
		return v.dec()
	case cGuid:
		return v.G
	case cInt8:
		return int8(v.I)
	case cInt16:
		return int16(v.I)
	case cInt32:
		return int32(v.I)
	case cInt64:
		return v.I
	case cUInt8:
		return uint8(v.I)
	case cUInt16:
		return uint16(v.I)
	case cUInt32:
		return uint32(v.I)
	}
	return uint64(v.I)
}

// readCell reads a cell with the function for a column type.
func readCell(row *DataRow, kind, index int) (any, bool, error) {
	switch kind {
	case cString:
		return row.StringValue(index)
	case cBool:
		return row.BooleanValue(index)
	case cDateTime:
		return row.DateTimeValue(index)
	case cSingle:
		return row.SingleValue(index)
	case cDouble:
		return row.DoubleValue(index)
	case cDecimal:
		return row.DecimalValue(index)
	case cGuid:
		return row.GuidValue(index)
	case cInt8:
		return row.Int8Value(index)
	case cInt16:
		return row.Int16Value(index)
	case cInt32:
		return row.Int32Value(index)
	case cInt64:
		return row.Int64Value(index)
	case cUInt8:
		return row.UInt8Value(index)
	case cUInt16:
		return row.UInt16Value(index)
	case cUInt32:
		return row.UInt32Value(index)
	}
	return row.UInt64Value(index)
}

func readCellByName(row *DataRow, kind int, name string) (any, bool, error) {
	switch kind {
	case cString:
		return row.StringValueByName(name)
	case cBool:
		return row.BooleanValueByName(name)
	case cDateTime:
		return row.DateTimeValueByName(name)
	case cSingle:
		return row.SingleValueByName(name)
	case cDouble:
		return row.DoubleValueByName(name)
	case cDecimal:
		return row.DecimalValueByName(name)
	case cGuid:
		return row.GuidValueByName(name)
	case cInt8:
		return row.Int8ValueByName(name)
	case cInt16:
		return row.Int16ValueByName(name)
	case cInt32:
		return row.Int32ValueByName(name)
	case cInt64:
		return row.Int64ValueByName(name)
	case cUInt8:
		return row.UInt8ValueByName(name)
	case cUInt16:
		return row.UInt16ValueByName(name)
	case cUInt32:
		return row.UInt32ValueByName(name)
	}
	return row.UInt64ValueByName(name)
}

// isCell reports whether a value is w, a value of a column type or nil.
func isCell(kind int, v, w any) bool {
	if v == nil || w == nil {
		return v == nil && w == nil
	}
	switch kind {
	case cString:
		a, ok := v.(string)
		return ok && a == w.(string)
	case cBool:
		a, ok := v.(bool)
		return ok && a == w.(bool)
	case cDateTime:
		a, ok := v.(time.Time)
		return ok && a.Equal(w.(time.Time)) && a.Location() == w.(time.Time).Location()
	case cSingle:
		a, ok := v.(float32)
		b := w.(float32)
		return ok && (math.Float32bits(a) == math.Float32bits(b) || a != a && b != b)
	case cDouble:
		a, ok := v.(float64)
		b := w.(float64)
		return ok && (math.Float64bits(a) == math.Float64bits(b) || a != a && b != b)
	case cDecimal:
		a, ok := v.(decimal.Decimal)
		return ok && sameDecimal(a, w.(decimal.Decimal))
	case cGuid:
		a, ok := v.(guid.Guid)
		return ok && a == w.(guid.Guid)
	case cInt8:
		a, ok := v.(int8)
		return ok && a == w.(int8)
	case cInt16:
		a, ok := v.(int16)
		return ok && a == w.(int16)
	case cInt32:
		a, ok := v.(int32)
		return ok && a == w.(int32)
	case cInt64:
		a, ok := v.(int64)
		return ok && a == w.(int64)
	case cUInt8:
		a, ok := v.(uint8)
		return ok && a == w.(uint8)
	case cUInt16:
		a, ok := v.(uint16)
		return ok && a == w.(uint16)
	case cUInt32:
		a, ok := v.(uint32)
		return ok && a == w.(uint32)
	}
	a, ok := v.(uint64)
	return ok && a == w.(uint64)
}

// vpColumnKinds takes the column types one by one.
func vpColumnKinds(kind int, f func(kind int)) {
	vpRequires(kind >= cString && kind <= cUInt64)
	for k := cString; k <= cUInt64; k++ {
		if kind == k {
			f(k)
			return
		}
	}
}

// vpPlace is a random column count, column and kind.
func vpPlace(r *rand.Rand) (n, p, kind int) {
	n = 1 + r.Intn(4)
	return n, r.Intn(n), r.Intn(15)
}
