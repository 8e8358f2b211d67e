package data

import (
	"math"
	"math/rand"
	"strconv"
	"strings"

	"github.com/araddon/dateparse"
	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/guid"
)

//verif:with common_value.go
//verif:with common_table.go

// D11: reading and assigning the cells of a row.

func gen_D11_read(r *rand.Rand) (int, int, int, int, int, vpVal) {
	n, p, kind := vpPlace(r)
	read := kind
	if r.Intn(4) == 0 {
		read = r.Intn(15)
	}
	return n, p, kind, read, r.Intn(n+2) - 1, vpRandom(r)
}

func contract_D11_read(n, p, kind, read, index int, v vpVal) {
	vpRequires(p >= 0 && p < n && n < 1<<30)
	vpRequires(read >= cString && read <= cUInt64)
	vpColumnKinds(kind, func(kind int) {
		row := vpRow(vpTable(n, p, "column", kind, ""), p, kind, v)
		if index < 0 || index >= n {
			_, _, err := readCell(row, kind, index)
			vpEnsures("column out of range is an error", err != nil)
			_, err = row.Value(index)
			vpEnsures("value out of range is an error", err != nil)
			vpEnsures("assignment out of range is an error", row.SetValue(index, nil) != nil)
			return
		}
		vpRequires(index == p)
		if read != kind {
			_, _, err := vpReadAs(row, read, p)
			vpEnsures("column of another type is an error", err != nil)
			return
		}
		got, null, err := readCell(row, kind, p)
		vpEnsures("read", err == nil && null == v.Null)
		if !v.Null {
			vpEnsures("value read", isCell(kind, got, cellValue(kind, v)))
		}
		w, err := row.Value(p)
		vpEnsures("value", err == nil && isCell(kind, w, cellValue(kind, v)))
	})
}

func vpReadAs(row *DataRow, read, p int) (got any, null bool, err error) {
	vpColumnKinds(read, func(read int) { got, null, err = readCell(row, read, p) })
	return
}

func gen_D11_name(r *rand.Rand) (int, int, int, string, string, vpVal) {
	n, p, kind := vpPlace(r)
	return n, p, kind, []string{"a", "Ab", "aB"}[r.Intn(3)], []string{"a", "A", "AB", "ab", "b", "other 1"}[r.Intn(6)], vpRandom(r)
}

func contract_D11_name(n, p, kind int, name, asked string, v vpVal) {
	vpRequires(p >= 0 && p < n && n < 1<<30)
	vpColumnKinds(kind, func(kind int) {
		row := vpRow(vpTable(n, p, name, kind, ""), p, kind, v)
		if strings.ToUpper(asked) == strings.ToUpper(name) {
			got, null, err := readCellByName(row, kind, asked)
			vpEnsures("read by name", err == nil && null == v.Null)
			if !v.Null {
				vpEnsures("value read by name", isCell(kind, got, cellValue(kind, v)))
			}
			w, err := row.ValueByName(asked)
			vpEnsures("value by name", err == nil && isCell(kind, w, cellValue(kind, v)))
			vpEnsures("assigned by name", row.SetValueByName(asked, nil) == nil)
			w, err = row.ValueByName(name)
			vpEnsures("assigned value by name", err == nil && w == nil)
			return
		}
		if row.Parent().ColumnByName(asked) == nil {
			_, _, err := readCellByName(row, kind, asked)
			vpEnsures("unknown name is an error", err != nil)
			_, err = row.ValueByName(asked)
			vpEnsures("value of unknown name is an error", err != nil)
			vpEnsures("assignment to unknown name is an error", row.SetValueByName(asked, nil) != nil)
			vpEnsures("text of unknown name is empty", row.ValueAsStringByName(asked) == "")
		}
	})
}

func gen_D11_assign(r *rand.Rand) (int, int, int, int, vpVal, vpVal) {
	n, p, kind := vpPlace(r)
	return n, p, r.Intn(n), kind, vpRandom(r), vpRandom(r)
}

// Assigning a cell changes it and no other.
func contract_D11_assign(n, p, q, kind int, v, w vpVal) {
	vpRequires(p >= 0 && p < n && n < 1<<30 && q >= 0 && q < n)
	vpColumnKinds(kind, func(kind int) {
		t := vpTable(n, p, "column", kind, "")
		row, other := vpRow(t, p, kind, v), vpRow(t, p, kind, v)
		c := t.Column(q)
		vpRequires(c != nil && !c.computed)
		vpEnsures("assigned", row.SetValue(q, cellValue(kind, w)) == nil)
		got, _ := row.Value(p)
		if p == q {
			vpEnsures("assigned value", isCell(kind, got, cellValue(kind, w)))
		} else {
			vpEnsures("other columns keep their value", isCell(kind, got, cellValue(kind, v)))
		}
		got, _ = other.Value(p)
		vpEnsures("other rows keep their value", isCell(kind, got, cellValue(kind, v)))
	})
}

func gen_D11_text(r *rand.Rand) (int, int, int, int, vpVal) {
	n, p, kind := vpPlace(r)
	return n, p, kind, r.Intn(n+2) - 1, vpRandom(r)
}

func contract_D11_text(n, p, kind, index int, v vpVal) {
	vpRequires(p >= 0 && p < n && n < 1<<30)
	vpColumnKinds(kind, func(kind int) {
		row := vpRow(vpTable(n, p, "column", kind, ""), p, kind, v)
		if index < 0 || index >= n {
			vpEnsures("text out of range is empty", row.ValueAsString(index) == "")
			return
		}
		vpRequires(index == p)
		got := row.ValueAsString(p)
		if v.Null {
			vpEnsures("text of null", got == "<NULL>")
			return
		}
		var want string
		switch c := cellValue(kind, v).(type) {
		case float32:
			want = strconv.FormatFloat(float64(c), 'f', 6, 32)
		case int8:
			want = strconv.FormatInt(int64(c), 10)
		case int16:
			want = strconv.FormatInt(int64(c), 10)
		case int32:
			want = strconv.FormatInt(int64(c), 10)
		case int64:
			want = strconv.FormatInt(c, 10)
		case uint8:
			want = strconv.FormatUint(uint64(c), 10)
		case uint16:
			want = strconv.FormatUint(uint64(c), 10)
		case uint32:
			want = strconv.FormatUint(uint64(c), 10)
		case uint64:
			want = strconv.FormatUint(c, 10)
		default:
			v.Kind = [...]byte{vString, vBool, vDateTime, vDouble, vDouble, vDecimal, vGuid}[kind]
			want = specText(v)
		}
		vpEnsures("text of the value", got == want)
	})
}

func gen_D11_computed(r *rand.Rand) (int, int, int, vpVal) {
	n, p, kind := vpPlace(r)
	return n, p, kind, vpRandom(r)
}

// specColumn is a value in the type of a column; ok tells whether there is one.
func specColumn(kind int, v vpVal) (w any, ok bool) {
	if v.Kind == vString {
		return specParsed(kind, v.S)
	}
	if kind == cString {
		return specText(v), true
	}
	if v.Kind == vGuid || kind == cGuid {
		return v.G, v.Kind == vGuid && kind == cGuid
	}
	n, f := specInt(v), v.F
	switch {
	case v.Kind == vDecimal:
		f, _ = v.dec().Float64()
	case v.Kind != vDouble:
		f = float64(n)
	}
	switch kind {
	case cBool, cDecimal:
		if kind == cDecimal && v.Kind == vDouble && (math.IsNaN(v.F) || math.IsInf(v.F, 0)) {
			return nil, false
		}
		return specConvert(v, map[int]int{cBool: vBool, cDecimal: vDecimal}[kind])
	case cDateTime:
		return v.T, v.Kind == vDateTime
	case cSingle:
		if v.Kind != vDouble && v.Kind != vDecimal {
			return float32(n), true
		}
		return float32(f), true
	case cDouble:
		return f, true
	}
	if v.Kind == vDouble {
		switch kind {
		case cInt8:
			return int8(f), true
		case cInt16:
			return int16(f), true
		case cInt32:
			return int32(f), true
		case cInt64:
			return int64(f), true
		case cUInt8:
			return uint8(f), true
		case cUInt16:
			return uint16(f), true
		case cUInt32:
			return uint32(f), true
		}
		return uint64(f), true
	}
	return cellValue(kind, vpVal{I: n}), true
}

// specParsed is a text read as the type of a column.
func specParsed(kind int, s string) (any, bool) {
	switch kind {
	case cString:
		return s, true
	case cBool:
		b, err := strconv.ParseBool(s)
		return b, err == nil
	case cDateTime:
		t, err := dateparse.ParseAny(s)
		return t.UTC(), err == nil
	case cSingle:
		f, err := strconv.ParseFloat(s, 64)
		return float32(f), err == nil
	case cDouble:
		f, err := strconv.ParseFloat(s, 64)
		return f, err == nil
	case cDecimal:
		d, err := decimal.NewFromString(s)
		return d, err == nil
	case cGuid:
		g, err := guid.Parse(s)
		return g, err == nil
	}
	if kind >= cUInt8 {
		u, err := strconv.ParseUint(s, 0, 8<<(kind-cUInt8))
		return cellValue(kind, vpVal{I: int64(u)}), err == nil
	}
	i, err := strconv.ParseInt(s, 0, 8<<(kind-cInt8))
	return cellValue(kind, vpVal{I: i}), err == nil
}

// A computed column gives the value of its expression in its own type.
func contract_D11_computed(n, p, kind int, v vpVal) {
	vpRequires(p >= 0 && p < n && n < 1<<30)
	vpColumnKinds(kind, func(kind int) {
		vpKind(v, func(v vpVal) {
			vpTree = NewExpressionTree()
			vpTree.Root = v.expr()
			row := vpTable(n, p, "column", kind, "expression").CreateRow()
			if vpConcrete() {
				row.values[p] = vpTree
			}
			v = v.typed(vBool)
			vpEnsures("computed column cannot be assigned", row.SetValue(p, nil) != nil)
			got, null, err := readCell(row, kind, p)
			cell, cellErr := row.Value(p)
			named, namedErr := row.ValueByName("COLUMN")
			if v.Null {
				vpEnsures("null of the expression is null", err == nil && null && cellErr == nil && cell == nil && namedErr == nil && named == nil)
				return
			}
			w, ok := specColumn(kind, v)
			if !ok {
				vpEnsures("value that does not fit the column is an error", err != nil && cellErr != nil && namedErr != nil)
				return
			}
			vpEnsures("computed value read", err == nil && !null && isCell(kind, got, w))
			vpEnsures("computed value", cellErr == nil && isCell(kind, cell, w))
			vpEnsures("computed value by name", namedErr == nil && isCell(kind, named, w))
		})
	})
}
