package data

import (
	"bytes"
	stdxml "encoding/xml"
	"math/rand"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/xml"
)

//verif:with common_value.go
//verif:with common_table.go
//verif:with common_sort.go

// D20: a data set loaded from XML holds the records of the document. The
// document is given as the tree of nodes that X01 is about; replays start from
// its text.

// specCell is the value a text stands for in a column; ok is false when the
// text is no value of the column type.
func specCell(kind int, s string) (v any, ok bool) {
	i := func(bits int) (int64, bool) {
		v, err := strconv.ParseInt(s, 10, bits)
		return v, err == nil
	}
	u := func(bits int) (uint64, bool) {
		v, err := strconv.ParseUint(s, 10, bits)
		return v, err == nil
	}
	switch kind {
	case cString:
		return s, true
	case cBool:
		return s == "true" || s == "1", s == "true" || s == "1" || s == "false" || s == "0"
	case cDateTime:
		t, err := time.Parse(time.RFC3339, s)
		return t, err == nil
	case cSingle:
		f, err := strconv.ParseFloat(s, 32)
		return float32(f), err == nil
	case cDouble:
		f, err := strconv.ParseFloat(s, 64)
		return f, err == nil
	case cDecimal:
		d, err := decimal.NewFromString(s)
		return d, err == nil
	case cGuid:
		g, err := guid.Parse(s)
		return g, err == nil
	case cInt8:
		n, ok := i(8)
		return int8(n), ok
	case cInt16:
		n, ok := i(16)
		return int16(n), ok
	case cInt32:
		n, ok := i(32)
		return int32(n), ok
	case cInt64:
		n, ok := i(64)
		return n, ok
	case cUInt8:
		n, ok := u(8)
		return uint8(n), ok
	case cUInt16:
		n, ok := u(16)
		return uint16(n), ok
	case cUInt32:
		n, ok := u(32)
		return uint32(n), ok
	}
	n, ok := u(64)
	return n, ok
}

var xsdTypes = [...]string{"string", "boolean", "dateTime", "float", "double", "decimal", "string", "byte", "short", "int", "long", "unsignedByte", "unsignedShort", "unsignedInt", "unsignedLong"}

func genCell(r *rand.Rand) string {
	switch r.Intn(9) {
	case 0:
		return []string{"true", "false", "1", "0"}[r.Intn(4)]
	case 1:
		return []string{"", "-", "+"}[r.Intn(3)] + "0" + strconv.Itoa(r.Intn(300))
	case 2:
		return strconv.FormatInt(int64(r.Uint64())>>r.Intn(64), 10)
	case 3:
		return strconv.FormatFloat(r.NormFloat64()*1e3, 'g', -1, 64)
	case 4:
		return guid.New().String()
	case 5:
		t := time.Unix(r.Int63n(1<<32), int64(r.Intn(100))*1e7).UTC()
		return t.In(time.FixedZone("", r.Intn(3)*3600)).Format("2006-01-02T15:04:05.99Z07:00")
	case 6:
		return "a<b> & 'c\""
	}
	return strings.Repeat("x", r.Intn(3))
}

func gen_D20_records(r *rand.Rand) (int, [2]string, [3]string, [3]string, int, int) {
	names := [2]string{"Alpha", "Beta"}
	var f, v [3]string
	for i := range f {
		f[i] = []string{"Alpha", "Beta", "BETA", "Gamma"}[r.Intn(4)]
		v[i] = genCell(r)
	}
	return r.Intn(15), names, f, v, r.Intn(4), r.Intn(4)
}

// A record with up to three fields for a table with a column of any type and a
// text column: the field of a column decides its value, a column without a
// field is null.
//
//verif:bounded two records of up to three fields, two columns
func contract_D20_records(kind int, names [2]string, fields, texts [3]string, n, m int) {
	up := [2]string{strings.ToUpper(names[0]), strings.ToUpper(names[1])}
	vpRequires(kind >= cString && kind <= cUInt64 && n >= 0 && n <= 3 && m >= 0 && m <= 3 && up[0] != up[1])
	vpCase(kind, cString, cUInt64, func(kind int) {
		vpCase(n, 0, 3, func(n int) {
			vpCase(m, 0, 3, func(m int) {
				var ds *DataSet
				if vpConcrete() {
					ds = vpLoadText(kind, names, fields, texts, n, m)
				} else {
					ds = vpLoadNodes(kind, names, fields, texts, n, m)
				}
				t := ds.Table("records")
				vpEnsures("table", t != nil && t.ColumnCount() == 2)
				vpEnsures("a row for each record", t.RowCount() == 2)
				vpRecord(t.Row(0), kind, up, fields[:n], texts[:n])
				vpRecord(t.Row(1), kind, up, fields[:m], texts[:m])
			})
		})
	})
}

func vpRecord(row *DataRow, kind int, up [2]string, fields, texts []string) {
	last := [2]int{-1, -1}
	for i, f := range fields {
		for c := range up {
			if strings.ToUpper(f) == up[c] {
				last[c] = i
			}
		}
	}
	first := kind
	for c := range up {
		if c == 1 {
			kind = cString
		} else {
			kind = first
		}
		switch last[c] {
		case -1:
			vpEnsures("no field, no value", vpCell(row, c) == nil)
		case 0:
			vpField(row, c, kind, texts[0])
		case 1:
			vpField(row, c, kind, texts[1])
		default:
			vpField(row, c, kind, texts[2])
		}
	}
}

func vpCell(row *DataRow, c int) any {
	v, err := row.Value(c)
	vpEnsures("cell can be read", err == nil)
	return v
}

func vpField(row *DataRow, c, kind int, text string) {
	want, ok := specCell(kind, text)
	if !ok {
		return
	}
	if kind == cDateTime {
		vpEnsures("value of the field", want.(time.Time).Equal(vpCell(row, c).(time.Time)))
		return
	}
	if kind == cDecimal {
		vpEnsures("value of the field", want.(decimal.Decimal).Equal(vpCell(row, c).(decimal.Decimal)))
		return
	}
	vpEnsures("value of the field", vpCell(row, c) == want || want != want)
}

func vpLoadNodes(kind int, names [2]string, fields, texts [3]string, n, m int) *DataSet {
	ds := NewDataSet()
	t := ds.CreateTable("records")
	t.AddColumn(t.CreateColumn(names[0], DataTypeEnum(kind), ""))
	t.AddColumn(t.CreateColumn(names[1], DataType.String, ""))
	ds.AddTable(t)
	record := func(n int) *xml.XmlNode {
		r := &xml.XmlNode{Name: "records"}
		for i := 0; i < n; i++ {
			r.ChildNodes = append(r.ChildNodes, xml.XmlNode{Name: fields[i], Text: texts[i]})
		}
		return r
	}
	root := &xml.XmlNode{Name: "set", Items: map[string][]*xml.XmlNode{"records": {record(n), record(m)}}}
	ds.loadRecords(root)
	return ds
}

func vpLoadText(kind int, names [2]string, fields, texts [3]string, n, m int) *DataSet {
	for _, s := range append(names[:], fields[:]...) {
		vpRequires(len(s) > 0 && strings.Trim(s, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz") == "")
	}
	for _, s := range texts {
		vpRequires(utf8.ValidString(s) && strings.IndexFunc(s, unicode.IsControl) < 0)
	}
	var b bytes.Buffer
	column := func(name string, kind int) {
		b.WriteString(`<xs:element name="` + name + `" type="xs:` + xsdTypes[kind] + `"`)
		if kind == cGuid {
			b.WriteString(` msdata:DataType="System.Guid, mscorlib"`)
		}
		b.WriteString("/>")
	}
	b.WriteString(`<set><xs:schema id="set" xmlns:xs="` + XmlSchemaNamespace + `" xmlns:msdata="` + ExtXmlSchemaDataNamespace + `"><xs:element><xs:complexType><xs:choice><xs:element name="records"><xs:complexType><xs:sequence>`)
	column(names[0], kind)
	column(names[1], cString)
	b.WriteString(`</xs:sequence></xs:complexType></xs:element></xs:choice></xs:complexType></xs:element></xs:schema>`)
	record := func(n int) {
		b.WriteString("<records>")
		for i := 0; i < n; i++ {
			b.WriteString("<" + fields[i] + ">")
			stdxml.EscapeText(&b, []byte(texts[i]))
			b.WriteString("</" + fields[i] + ">")
		}
		b.WriteString("</records>")
	}
	record(n)
	record(m)
	b.WriteString("</set>")
	ds := NewDataSet()
	vpRequires(ds.ParseXml(b.Bytes()) == nil)
	return ds
}

func gen_D20_schema(r *rand.Rand) (string, [2]string, [2]string, [2]string, [2]string, [2]string, [2]string, [6]bool, bool) {
	pick := func(s ...string) string { return s[r.Intn(len(s))] }
	xsd := func() string {
		if r.Intn(5) == 0 {
			return pick("", "anyURI", "xs:byte", "t:int")
		}
		return pick("xs:", "xs:", "") + xsdTypes[r.Intn(len(xsdTypes))]
	}
	var has [6]bool
	for i := range has {
		has[i] = r.Intn(4) > 0
	}
	two := func(f func() string) [2]string { return [2]string{f(), f()} }
	space := func() string { return pick(ExtXmlSchemaDataNamespace, ExtXmlSchemaDataNamespace, "urn:other") }
	return pick("", "Table"), [2]string{pick("", "One"), pick("", "Two")}, two(xsd),
		two(func() string { return pick("", "System.Guid", "System.Guid, mscorlib", "System.Int") }), two(space),
		two(func() string { return pick("", "1+1") }), two(space), has, r.Intn(3) > 0
}

// A table definition with up to two columns, each attribute present or not.
//
//verif:bounded one table of up to two columns
func contract_D20_schema(table string, names, kinds, ext, extSpace, expr, exprSpace [2]string, has [6]bool, prefix bool) {
	vpRequires(strings.ToUpper(names[0]) != strings.ToUpper(names[1]))
	if prefix {
		vpSchema(table, names, kinds, ext, extSpace, expr, exprSpace, has, "xs")
	} else {
		vpSchema(table, names, kinds, ext, extSpace, expr, exprSpace, has, "")
	}
}

func vpSchema(table string, names, kinds, ext, extSpace, expr, exprSpace [2]string, has [6]bool, prefix string) {
	schema := xml.XmlNode{Name: "schema", Namespace: XmlSchemaNamespace, Attributes: map[string]string{}}
	schema.Attributes[prefix] = XmlSchemaNamespace
	sequence := xml.XmlNode{Name: "sequence"}
	for i := 0; i < 2; i++ {
		f := xml.XmlNode{Name: "element", Attributes: map[string]string{}, AttributeNamespaces: map[string]string{}}
		if has[i*3] {
			f.Attributes["name"] = names[i]
			f.Attributes["type"] = kinds[i]
		}
		if has[i*3+1] {
			f.Attributes["DataType"] = ext[i]
			f.AttributeNamespaces["DataType"] = extSpace[i]
		}
		if has[i*3+2] {
			f.Attributes["Expression"] = expr[i]
			f.AttributeNamespaces["Expression"] = exprSpace[i]
		}
		sequence.ChildNodes = append(sequence.ChildNodes, f)
	}
	within := func(name string, nodes ...xml.XmlNode) xml.XmlNode { return xml.XmlNode{Name: name, ChildNodes: nodes} }
	def := within("element", within("complexType", sequence))
	def.Attributes = map[string]string{"name": table}
	schema.ChildNodes = []xml.XmlNode{within("element", within("complexType", within("choice", def)))}

	ds := NewDataSet()
	ds.loadSchema(&schema)

	if table == "" {
		vpEnsures("a table has a name", ds.TableCount() == 0)
		return
	}
	vpEnsures("one table", ds.TableCount() == 1)
	t := ds.Table(table)
	vpEnsures("table by its name", t != nil && t.Name() == table)
	at := 0
	for i := 0; i < 2; i++ {
		kind, known := -1, false
		if has[i*3] && names[i] != "" && kinds[i] != "" {
			name := kinds[i]
			if prefix != "" {
				name = strings.TrimPrefix(name, prefix+":")
			}
			isGuid := has[i*3+1] && extSpace[i] == ExtXmlSchemaDataNamespace && strings.HasPrefix(ext[i], "System.Guid")
			for k, x := range xsdTypes {
				if x == name && (k != cGuid || isGuid) {
					kind, known = k, true
				}
			}
		}
		c := t.ColumnByName(names[i])
		if !known {
			vpEnsures("no column without name and known type", c == nil)
			continue
		}
		vpEnsures("column", c != nil)
		vpEnsures("column name and place", c.Name() == names[i] && c.Index() == at)
		vpEnsures("column type", int(c.Type()) == kind)
		want := ""
		if has[i*3+2] && len(expr[i]) > 0 && exprSpace[i] == ExtXmlSchemaDataNamespace {
			want = expr[i]
		}
		vpEnsures("expression", (c.Expression() == want || len(c.Expression()) == 0 && want == "") && c.computed == (want != ""))
		at++
	}
	vpEnsures("no other columns", t.ColumnCount() == at)
}
