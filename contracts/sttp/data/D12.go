package data

import (
	"math/rand"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/guid"
)

//verif:with common_value.go
//verif:with common_table.go

// D12: comparing rows by a column.

func gen_D12_compare(r *rand.Rand) (int, int, int, int, int, vpVal, vpVal, bool) {
	n, p, kind := vpPlace(r)
	index := p
	if r.Intn(10) == 0 {
		index = r.Intn(8) - 2
	}
	return n, n + r.Intn(2), p, index, kind, vpRandom(r), vpRandom(r), r.Intn(2) == 0
}

// specOrder compares two values of a column type.
func specOrder(kind int, a, b any, exact bool) int {
	switch kind {
	case cString:
		if exact {
			return strings.Compare(a.(string), b.(string))
		}
		return strings.Compare(strings.ToUpper(a.(string)), strings.ToUpper(b.(string)))
	case cBool: // true comes first
		if a.(bool) == b.(bool) {
			return 0
		}
		if a.(bool) {
			return -1
		}
		return 1
	case cDateTime:
		return a.(time.Time).Compare(b.(time.Time))
	case cSingle:
		return specSign(a.(float32) < b.(float32), a.(float32) > b.(float32))
	case cDouble:
		return specSign(a.(float64) < b.(float64), a.(float64) > b.(float64))
	case cDecimal:
		return a.(decimal.Decimal).Cmp(b.(decimal.Decimal))
	case cGuid:
		c := guid.Compare(a.(guid.Guid), b.(guid.Guid))
		return specSign(c < 0, c > 0)
	case cInt8:
		return specSign(a.(int8) < b.(int8), a.(int8) > b.(int8))
	case cInt16:
		return specSign(a.(int16) < b.(int16), a.(int16) > b.(int16))
	case cInt32:
		return specSign(a.(int32) < b.(int32), a.(int32) > b.(int32))
	case cInt64:
		return specSign(a.(int64) < b.(int64), a.(int64) > b.(int64))
	case cUInt8:
		return specSign(a.(uint8) < b.(uint8), a.(uint8) > b.(uint8))
	case cUInt16:
		return specSign(a.(uint16) < b.(uint16), a.(uint16) > b.(uint16))
	case cUInt32:
		return specSign(a.(uint32) < b.(uint32), a.(uint32) > b.(uint32))
	}
	return specSign(a.(uint64) < b.(uint64), a.(uint64) > b.(uint64))
}

func specSign(less, more bool) int {
	if less {
		return -1
	}
	if more {
		return 1
	}
	return 0
}

func contract_D12_compare(n, m, p, index, kind int, v, w vpVal, exact bool) {
	vpRequires(p >= 0 && p < n && n < 1<<30 && p < m && m < 1<<30)
	vpColumnKinds(kind, func(kind int) {
		left := vpRow(vpTable(n, p, "column", kind, ""), p, kind, v)
		right := vpRow(vpTable(m, p, "column", kind, ""), p, kind, w)
		if index < 0 || index >= n || index >= m {
			_, err := CompareDataRowColumns(left, right, index, exact)
			vpEnsures("column out of range is an error", err != nil)
			return
		}
		vpRequires(index == p)
		got, err := CompareDataRowColumns(left, right, p, exact)
		want := 0
		if !v.Null && !w.Null {
			want = specOrder(kind, cellValue(kind, v), cellValue(kind, w), exact)
		} else {
			want = specSign(v.Null && !w.Null, w.Null && !v.Null)
		}
		vpEnsures("order of the values, null first", err == nil && got == want)
	})
}

func gen_D12_types(r *rand.Rand) (int, int, int, int, bool) {
	n, p, kind := vpPlace(r)
	return n, p, kind, r.Intn(15), r.Intn(2) == 0
}

func contract_D12_types(n, p, kind, other int, exact bool) {
	vpRequires(p >= 0 && p < n && n < 1<<30 && other >= cString && other <= cUInt64 && other != kind)
	vpColumnKinds(kind, func(kind int) {
		_, err := CompareDataRowColumns(vpTable(n, p, "column", kind, "").CreateRow(), vpTable(n, p, "column", other, "").CreateRow(), p, exact)
		vpEnsures("columns of different types are an error", err != nil)
	})
}
