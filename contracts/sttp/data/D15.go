package data

import (
	"math/rand"

	"github.com/sttp/goapi/sttp/data/parser"
	"github.com/sttp/goapi/sttp/guid"
)

//verif:with common_value.go
//verif:with common_table.go
//verif:with common_sort.go
//verif:with common_parse.go

// D15: the combined results of several statements.

const vpN = 3

// vpSignals is a table of signals with two marks each.
func vpSignals(a, b int, ids [vpN]any, keys, tags [vpN]string) *DataTable {
	ds := NewDataSet()
	t := ds.CreateTable("Signals")
	for _, name := range []string{"A", "B"} {
		t.AddColumn(t.CreateColumn(name, DataType.Boolean, ""))
	}
	t.AddColumn(t.CreateColumn("SignalID", DataType.Guid, ""))
	t.AddColumn(t.CreateColumn("ID", DataType.String, ""))
	t.AddColumn(t.CreateColumn("PointTag", DataType.String, ""))
	for i := 0; i < vpN; i++ {
		row := t.CreateRow()
		row.SetValue(0, a>>i&1 == 1)
		row.SetValue(1, b>>i&1 == 1)
		row.SetValue(2, ids[i])
		row.SetValue(3, keys[i])
		row.SetValue(4, tags[i])
		t.AddRow(row)
	}
	ds.AddTable(t)
	return t
}

func gen_D15_rows(r *rand.Rand) (int, int, int) { return r.Intn(8), r.Intn(8), r.Intn(3) }

// Rows matched by several statements are given once, in the order matched.
//
//verif:bounded tables of three rows, one to three statements
func contract_D15_rows(a, b, more int) {
	vpRequires(a >= 0 && a < 8 && b >= 0 && b < 8 && more >= 0 && more < 3)
	vpCase(a, 0, 7, func(a int) {
		vpCase(b, 0, 7, func(b int) {
			vpCase(more, 0, 2, func(more int) { checkRows(a, b, more) })
		})
	})
}

func checkRows(a, b, more int) {
	t := vpSignals(a, b, [vpN]any{}, [vpN]string{}, [vpN]string{})
	first := filterStatement(vpStatement{table: "signals"}, whole(column("a")))
	text := vpProgram(first)
	masks := []int{a}
	if more == 1 {
		text = vpProgram(first, filterStatement(vpStatement{table: "signals"}, whole(column("b"))))
		masks = []int{a, b}
	} else if more == 2 {
		text = vpProgram(first, whole(column("B")), filterStatement(vpStatement{table: "Signals"}, whole(column("A"))))
		masks = []int{a, b, a}
	}
	var want []*DataRow
	had := 0
	for _, m := range masks {
		for i := 0; i < vpN; i++ {
			if m>>i&1 == 1 && had>>i&1 == 0 {
				had |= 1 << i
				want = append(want, t.Row(i))
			}
		}
	}
	rows, err := SelectDataRows(t.Parent(), text, "Signals", nil, true)
	vpEnsures("no error", err == nil)
	vpEnsures("rows counted", len(rows) == len(want))
	for i := range want {
		vpEnsures("rows in the order matched", rows[i] == want[i])
	}
	set, err := SelectDataRowSet(t.Parent(), text, "Signals", nil, true)
	vpEnsures("no error for a set", err == nil)
	vpEnsures("rows of the set counted", len(set) == len(want))
	for i := range want {
		vpEnsures("rows in the set", set.Contains(want[i]))
	}
}

func gen_D15_signals(r *rand.Rand) (int, int, int, guid.Guid, guid.Guid) {
	return r.Intn(5), r.Intn(2), r.Intn(64), guid.New(), guid.New()
}

// Signal IDs of matched rows are given, unique for several statements; null
// and zero IDs are left out.
//
//verif:bounded tables of three rows, one or two statements
func contract_D15_signals(marks, more, ids int, g, h guid.Guid) {
	vpRequires(marks >= 0 && marks < 5 && more >= 0 && more < 2 && ids >= 0 && ids < 64)
	vpRequires(g != h && g != guid.Guid{} && h != guid.Guid{})
	vpCase(marks, 0, 4, func(marks int) {
		vpCase(more, 0, 1, func(more int) {
			vpCase(ids, 0, 63, func(ids int) {
				checkSignals([]int{1, 3, 5, 6, 7}[marks], []int{6, 6, 2, 3, 7}[marks], more, ids, g, h)
			})
		})
	})
}

func checkSignals(a, b, more, ids int, g, h guid.Guid) {
	var cells [vpN]any
	var known [vpN]guid.Guid
	for i := range cells {
		switch ids >> (2 * i) & 3 {
		case 1:
			cells[i] = guid.Guid{}
		case 2:
			cells[i], known[i] = g, g
		case 3:
			cells[i], known[i] = h, h
		}
	}
	t := vpSignals(a, b, cells, [vpN]string{}, [vpN]string{})
	first := filterStatement(vpStatement{table: "Signals"}, whole(column("A")))
	text := vpProgram(first)
	masks := []int{a}
	if more == 1 {
		text = vpProgram(first, filterStatement(vpStatement{table: "Signals"}, whole(column("B"))))
		masks = []int{a, b}
	}
	var want []guid.Guid
	for _, m := range masks {
		for i, id := range known {
			if m>>i&1 == 0 || id.IsZero() {
				continue
			}
			had := false
			for _, w := range want {
				had = had || w == id
			}
			if !had || more == 0 {
				want = append(want, id)
			}
		}
	}
	p, err := NewFilterExpressionParserForDataSet(t.Parent(), text, "Signals", nil, true)
	vpEnsures("no error", err == nil)
	p.TrackFilteredSignalIDs = true
	err = p.Evaluate(true, true)
	vpEnsures("no error in evaluation", err == nil)
	got := p.FilteredSignalIDs()
	vpEnsures("signals counted", len(got) == len(want))
	for i := range want {
		vpEnsures("signals in the order matched", got[i] == want[i])
	}
	set, err := SelectSignalIDSet(t.Parent(), text, "Signals", nil, true)
	vpEnsures("no error for a set", err == nil)
	for _, id := range []guid.Guid{g, h} {
		has := false
		for _, w := range want {
			has = has || w == id
		}
		vpEnsures("set of the signals", set.Contains(id) == has)
	}
	vpEnsures("no other signals in the set", !set.Contains(guid.Guid{}) && len(set) <= 2)
}

func gen_D15_literals(r *rand.Rand) (int, int, int) { return r.Intn(3), r.Intn(4), r.Intn(8) }

// A signal identified by its ID, key or tag is given along with the rows
// matched by filters, once.
//
//verif:bounded tables of three rows, one or two statements
func contract_D15_literals(kind, row, a int) {
	vpRequires(kind >= 0 && kind < 3 && row >= 0 && row <= vpN && a >= 0 && a < 8)
	zero := guid.Guid{}
	var ids [vpN]guid.Guid
	other := parsed(vpIDs[vpN])
	vpRequires(other != zero)
	for i := range ids {
		ids[i] = parsed(vpIDs[i])
		vpRequires(ids[i] != zero && ids[i] != other)
		for k := 0; k < i; k++ {
			vpRequires(ids[i] != ids[k])
		}
	}
	vpCase(kind, 0, 2, func(kind int) {
		vpCase(row, 0, vpN, func(row int) {
			vpCase(a, 0, 7, func(a int) { checkLiterals(kind, row, a, other, ids) })
		})
	})
}

var vpIDs = [vpN + 1]string{
	"{93673c68-d59d-4926-b7e9-e7678f9f66b4}",
	"65ac9cf6-ae33-4ece-91b6-bb79343855d5",
	"'3647f729-d0ed-4f79-85ad-dae2149cd432'",
	"{69a3be1e-8e05-4d0b-8a4e-1c0a7f0e2b11}",
}

func parsed(text string) guid.Guid {
	if text[0] == '\'' {
		text = text[1 : len(text)-1]
	}
	id, err := guid.Parse(text)
	vpRequires(err == nil)
	return id
}

func checkLiterals(kind, row, a int, other guid.Guid, ids [vpN]guid.Guid) {
	keys := [vpN + 1]string{"PPA:1", "PPA:2", "PPA:12", "PPA:3"}
	tags := [vpN + 1]string{"ALPHA", "BETA", "GAMMA", "DELTA"}
	t := vpSignals(a, 0, [vpN]any{ids[0], ids[1], ids[2]}, [vpN]string{"ppa:1", "PPA:2", "Ppa:12"}, [vpN]string{"alpha", "BETA", "Gamma"})
	var s = identifierStatement(parser.FilterExpressionSyntaxParserGUID_LITERAL, vpIDs[row])
	if kind == 1 {
		s = identifierStatement(parser.FilterExpressionSyntaxParserMEASUREMENT_KEY_LITERAL, keys[row])
	} else if kind == 2 {
		s = identifierStatement(parser.FilterExpressionSyntaxParserPOINT_TAG_LITERAL, "\""+tags[row]+"\"")
	}
	for n := 0; n < 3; n++ {
		text := vpProgram(s)
		mask := 0
		if n == 1 {
			text = vpProgram(s, filterStatement(vpStatement{table: "Signals"}, whole(column("A"))))
			mask = a
		} else if n == 2 {
			text = vpProgram(filterStatement(vpStatement{table: "Signals"}, whole(column("A"))), s)
			mask = a
		}
		if row < vpN {
			mask |= 1 << row
		}
		count := 0
		for i := 0; i < vpN; i++ {
			count += mask >> i & 1
		}
		rows, err := SelectDataRows(t.Parent(), text, "Signals", nil, true)
		vpEnsures("no error", err == nil)
		vpEnsures("rows counted", len(rows) == count)
		set, err := SelectDataRowSet(t.Parent(), text, "Signals", nil, true)
		vpEnsures("no error for a set", err == nil && len(set) == count)
		for i := 0; i < vpN; i++ {
			has := false
			for _, r := range rows {
				has = has || r == t.Row(i)
			}
			vpEnsures("identified and matching rows", has == (mask>>i&1 == 1))
			vpEnsures("identified and matching rows in the set", set.Contains(t.Row(i)) == has)
		}
		signals, err := SelectSignalIDSet(t.Parent(), text, "Signals", nil, true)
		vpEnsures("no error for signals", err == nil)
		for i := 0; i < vpN; i++ {
			vpEnsures("identified and matching signals", signals.Contains(ids[i]) == (mask>>i&1 == 1))
		}
		if row == vpN && kind == 0 {
			count++ // a signal that is not in the table
			vpEnsures("identified signal", signals.Contains(other))
		}
		vpEnsures("signals counted", len(signals) == count)
	}
}
