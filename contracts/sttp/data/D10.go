package data

import (
	"errors"
	"math/rand"
)

//verif:with common_value.go
//verif:with common_table.go
//verif:with common_sort.go

// D10: the rows a filter selects.

// vpMark is what the expression gives for a row.
const (
	mFalse = iota
	mTrue
	mNull
	mMarks
)

const vpRows = 3

// vpMarked is a table of rows with a mark, a number and a text each, and a
// tree that gives the mark.
func vpMarked(marks [vpRows]int, numbers [vpRows]int32, texts [vpRows]vpVal) (*DataTable, *ExpressionTree) {
	t := NewDataSet().CreateTable("t")
	c := t.CreateColumn("mark", DataType.Boolean, "")
	t.AddColumn(c)
	t.AddColumn(t.CreateColumn("number", DataType.Int32, ""))
	t.AddColumn(t.CreateColumn("text", DataType.String, ""))
	for i, m := range marks {
		row := t.CreateRow()
		if m != mNull {
			row.SetValue(0, m == mTrue)
		}
		row.SetValue(1, numbers[i])
		row.SetValue(2, cellValue(cString, texts[i]))
		t.AddRow(row)
	}
	tree := NewExpressionTree()
	tree.Root = NewColumnExpression(c)
	return t, tree
}

// vpMarks takes the combinations of marks one by one.
func vpMarks(marks int, f func(marks [vpRows]int)) {
	vpRequires(marks >= 0 && marks < mMarks*mMarks*mMarks)
	for m := 0; m < mMarks*mMarks*mMarks; m++ {
		if marks == m {
			f([vpRows]int{m % mMarks, m / mMarks % mMarks, m / mMarks / mMarks})
			return
		}
	}
}

func gen_D10_select(r *rand.Rand) (int, int, int) {
	return r.Intn(27), r.Intn(7) - 2, r.Intn(3)
}

// The rows for which the expression is true are selected in their order, at
// most as many as the limit says.
//
//verif:bounded tables of three rows
func contract_D10_select(marks, limit, how int) {
	vpRequires(limit >= -1 && limit <= vpRows+1 && how >= 0 && how <= 2)
	vpMarks(marks, func(marks [vpRows]int) {
		for l := -1; l <= vpRows+1; l++ {
			if limit == l {
				checkSelect(marks, l, how)
				return
			}
		}
	})
}

func checkSelect(marks [vpRows]int, limit, how int) {
	t, tree := vpMarked(marks, [vpRows]int32{}, [vpRows]vpVal{})
	tree.TopLimit = limit
	var want []*DataRow
	for i, m := range marks {
		if m == mTrue && (how == 2 || limit < 0 || len(want) < limit) {
			want = append(want, t.Row(i))
		}
	}
	var rows []*DataRow
	var err error
	if how == 0 {
		rows, err = tree.Select(t)
	} else {
		rows, err = tree.SelectWhere(t, func(v *ValueExpression) (bool, error) { return v.BooleanValue() }, how == 1, true)
	}
	vpEnsures("no error", err == nil)
	vpEnsures("matching rows counted", len(rows) == len(want))
	for i := range want {
		vpEnsures("matching rows in order", rows[i] == want[i])
	}
}

func gen_D10_errors(r *rand.Rand) (int, vpVal) { return r.Intn(3), vpRandom(r) }

// An expression that is not a Boolean, that fails or that is refused is an
// error.
//
//verif:bounded tables of three rows
func contract_D10_errors(bad int, v vpVal) {
	vpRequires(bad >= 0 && bad < vpRows && v.Kind > vBool && v.Kind < vUndefined)
	for b := 0; b < vpRows; b++ {
		if bad == b {
			vpKind(v, func(v vpVal) { checkErrors(b, v) })
			return
		}
	}
}

func checkErrors(bad int, v vpVal) {
	t, tree := vpMarked([vpRows]int{mTrue, mNull, mFalse}, [vpRows]int32{}, [vpRows]vpVal{})
	seen := 0
	_, err := tree.SelectWhere(t, func(v *ValueExpression) (bool, error) {
		seen++
		if seen == bad+1 {
			return true, errors.New("refused")
		}
		return true, nil
	}, true, true)
	vpEnsures("refused row is an error", err != nil)

	tree.Root = v.expr()
	_, err = tree.Select(t)
	vpEnsures("other than a Boolean is an error", err != nil)

	tree.Root = NewColumnExpression(nil)
	_, err = tree.Select(t)
	vpEnsures("failing expression is an error", err != nil)
	_, err = tree.Select(nil)
	vpEnsures("no table is an error", err != nil)
}

func gen_D10_sort(r *rand.Rand) (int, int, int, int, [vpRows]int32, [vpRows]vpVal) {
	var numbers [vpRows]int32
	var texts [vpRows]vpVal
	for i := range numbers {
		numbers[i] = int32(r.Intn(3))
		texts[i] = vpText(r)
	}
	return r.Intn(2), r.Intn(2), r.Intn(2), r.Intn(8), numbers, texts
}

func gen_D10_sortTwice(r *rand.Rand) (int, int, int, int, [vpRows]int32, [vpRows]vpVal) {
	marks, limit, terms, ways, numbers, texts := gen_D10_sort(r)
	return marks, limit, 2 + terms, ways, numbers, texts
}

// Selected rows are ordered by the term.
//
//verif:bounded tables of three rows
func contract_D10_sort(marks, limit, terms, ways int, numbers [vpRows]int32, texts [vpRows]vpVal) {
	vpRequires(terms >= 0 && terms < 2)
	vpSorts(marks, limit, terms, ways, numbers, texts)
}

// Selected rows are ordered by the terms, one after the other.
//
//verif:bounded tables of three rows, two terms
func contract_D10_sortTwice(marks, limit, terms, ways int, numbers [vpRows]int32, texts [vpRows]vpVal) {
	vpRequires(terms >= 2 && terms < 4)
	vpSorts(marks, limit, terms, ways, numbers, texts)
}

func vpSorts(marks, limit, terms, ways int, numbers [vpRows]int32, texts [vpRows]vpVal) {
	vpRequires(marks >= 0 && marks < 2 && limit >= 0 && limit < 2 && ways >= 0 && ways < 8)
	vpCase(marks, 0, 1, func(marks int) {
		vpCase(limit, 0, 1, func(limit int) {
			vpCase(terms, 0, 3, func(terms int) {
				vpCase(ways, 0, 7, func(ways int) {
					vpOrders(func() {
						checkSort([vpRows]int{mTrue, marks, mTrue}, 3*limit-1, terms, ways, numbers, texts)
					})
				})
			})
		})
	})
}

func checkSort(marks [vpRows]int, limit, terms, ways int, numbers [vpRows]int32, texts [vpRows]vpVal) {
	t, tree := vpMarked(marks, numbers, texts)
	tree.TopLimit = limit
	number := &OrderByTerm{Column: t.Column(1), Ascending: ways&1 != 0, ExactMatch: ways&4 != 0}
	text := &OrderByTerm{Column: t.Column(2), Ascending: ways&2 != 0, ExactMatch: ways&4 != 0}
	tree.OrderByTerms = [][]*OrderByTerm{{number}, {text}, {number, text}, {text, number}}[terms]
	checkOrder(t, tree, marks, limit, tree.OrderByTerms)
}

func checkOrder(t *DataTable, tree *ExpressionTree, marks [vpRows]int, limit int, order []*OrderByTerm) {
	count := 0
	for _, m := range marks {
		if m == mTrue && (limit < 0 || count < limit) {
			count++
		}
	}
	rows, err := tree.Select(t)
	vpEnsures("no error", err == nil)
	vpEnsures("matching rows counted", len(rows) == count)
	for i := 0; i < count; i++ {
		matches := false
		for k, m := range marks {
			if m == mTrue && rows[i] == t.Row(k) {
				matches = true
			}
		}
		vpEnsures("matching rows only", matches)
		for k := 0; k < i; k++ {
			vpEnsures("no row twice", rows[i] != rows[k])
		}
	}
	for i := 1; i < count; i++ {
		vpEnsures("rows in order", !precedes(rows[i], rows[i-1], order))
	}
}

// precedes reports whether row a comes before row b.
func precedes(a, b *DataRow, order []*OrderByTerm) bool {
	for _, o := range order {
		c, err := CompareDataRowColumns(a, b, o.Column.Index(), o.ExactMatch)
		vpEnsures("rows compare", err == nil)
		if !o.Ascending {
			c = -c
		}
		if c != 0 {
			return c < 0
		}
	}
	return false
}
