package data

import (
	"math/rand"
	"strings"
)

//verif:with common_value.go
//verif:with common_table.go

// D13: looking up tables and columns by name.

var vpNames = []string{"a", "A", "ab", "aB", "AB", "b", ""}

func vpName(r *rand.Rand) string { return vpNames[r.Intn(len(vpNames))] }

func gen_D13_column(r *rand.Rand) (int, int, string, string, int) {
	n, p, _ := vpPlace(r)
	return n, p, vpName(r), vpName(r), r.Intn(n+2) - 1
}

// Columns are found by their name in any case and by their index.
func contract_D13_column(n, p int, name, asked string, index int) {
	vpRequires(p >= 0 && p < n && n < 1<<30)
	t := vpTable(n, p, name, cString, "")
	c := t.Column(p)
	vpEnsures("column by index", c != nil && c.Name() == name && c.Index() == p)
	vpEnsures("columns counted", t.ColumnCount() == n)
	if index < 0 || index >= n {
		vpEnsures("no column out of range", t.Column(index) == nil)
	}
	if strings.ToUpper(asked) == strings.ToUpper(name) {
		vpEnsures("column by name in any case", t.ColumnByName(asked) == c)
		vpEnsures("index by name in any case", t.ColumnIndex(asked) == p)
	}
}

func gen_D13_add(r *rand.Rand) (int, int, string, string, string) {
	n, p, _ := vpPlace(r)
	return n, p, vpName(r), vpName(r), vpName(r)
}

// Adding a column puts it last and takes over its name only.
func contract_D13_add(n, p int, name, added, asked string) {
	vpRequires(p >= 0 && p < n && n < 1<<30)
	t := vpTable(n, p, name, cString, "")
	before := t.ColumnByName(asked)
	first := t.Column(p)
	c := t.CreateColumn(added, DataType.Guid, "")
	t.AddColumn(c)
	vpEnsures("one column more", t.ColumnCount() == n+1)
	vpEnsures("added last", t.Column(n) == c && c.Index() == n && c.Name() == added && c.Type() == DataType.Guid && c.Parent() == t)
	vpEnsures("other columns keep their place", t.Column(p) == first)
	vpEnsures("added column found", t.ColumnByName(added) == c)
	if strings.ToUpper(asked) == strings.ToUpper(added) {
		vpEnsures("added column found in any case", t.ColumnByName(asked) == c && t.ColumnIndex(asked) == n)
	} else if before == nil {
		vpEnsures("unknown name not found", t.ColumnIndex(asked) == -1 || !vpConcrete())
	} else {
		vpEnsures("other names keep their column", t.ColumnByName(asked) == before)
	}
}

func gen_D13_table(r *rand.Rand) (string, string, string) { return vpName(r), vpName(r), vpName(r) }

// Tables of a set are found by their name in any case.
func contract_D13_table(first, second, asked string) {
	ds := NewDataSet()
	a, b := ds.CreateTable(first), ds.CreateTable(second)
	ds.AddTable(a)
	vpEnsures("table found", ds.Table(first) == a && ds.TableCount() == 1)
	ds.AddTable(b)
	count := 2
	if strings.ToUpper(first) == strings.ToUpper(second) {
		count = 1
	}
	vpEnsures("tables counted", ds.TableCount() == count)
	var want *DataTable
	if strings.ToUpper(asked) == strings.ToUpper(second) {
		want = b
	} else if strings.ToUpper(asked) == strings.ToUpper(first) {
		want = a
	}
	vpEnsures("table by name in any case", ds.Table(asked) == want)
	vpEnsures("removed when there is one", ds.RemoveTable(asked) == (want != nil))
	vpEnsures("removed table not found", ds.Table(asked) == nil)
	if want != nil {
		count--
	}
	vpEnsures("tables counted after removal", ds.TableCount() == count)
	if strings.ToUpper(asked) != strings.ToUpper(second) {
		vpEnsures("other table kept", ds.Table(second) == b)
	}
}

func gen_D13_rows(r *rand.Rand) (int, int) { n := r.Intn(5); return n, r.Intn(n+2) - 1 }

// Rows are found by their index.
//
//verif:bounded tables of up to three rows
func contract_D13_rows(n, index int) {
	vpRequires(n >= 0 && n <= 3)
	for k := 0; k <= 3; k++ {
		if n == k {
			t := NewDataSet().CreateTable("table")
			t.AddColumn(t.CreateColumn("column", DataType.Int32, ""))
			t.InitRows(k)
			rows := [3]*DataRow{}
			for i := 0; i < k; i++ {
				rows[i] = t.CreateRow()
				t.AddRow(rows[i])
			}
			vpEnsures("rows counted", t.RowCount() == k && len(t.Rows()) == k)
			for i := 0; i < k; i++ {
				vpEnsures("row by index", t.Row(i) == rows[i] && t.Row(i).Parent() == t)
			}
			if index < 0 || index >= k {
				vpEnsures("no row out of range", t.Row(index) == nil)
			}
			return
		}
	}
}
