package data

import (
	"math"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/antlr/antlr4/runtime/Go/antlr"
	"github.com/araddon/dateparse"
	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/data/parser"
	"github.com/sttp/goapi/sttp/guid"
)

//verif:with common_value.go
//verif:with common_sort.go
//verif:with common_parse.go

// D16: the expressions the parser makes of the syntax.

// vpSource is a set with a table of two columns.
func vpSource() *DataTable {
	ds := NewDataSet()
	t := ds.CreateTable("Source")
	t.AddColumn(t.CreateColumn("One", DataType.Int32, ""))
	t.AddColumn(t.CreateColumn("Two", DataType.Int32, ""))
	ds.AddTable(t)
	return t
}

// parseOne is the tree of a text of one statement.
func parseOne(t *DataTable, text string) *ExpressionTree {
	trees, err := GenerateExpressionTrees(t.Parent(), "Source", text, true)
	vpEnsures("no error", err == nil)
	vpEnsures("one tree", len(trees) == 1)
	return trees[0]
}

func isColumn(e Expression, c *DataColumn) bool {
	x, ok := e.(*ColumnExpression)
	return ok && x.DataColumn() == c
}

func isOperator(e Expression, kind ExpressionOperatorTypeEnum, t *DataTable) bool {
	x, ok := e.(*OperatorExpression)
	if !ok || x.OperatorType() != kind || !isColumn(x.LeftValue(), t.Column(0)) {
		return false
	}
	if kind == ExpressionOperatorType.IsNull || kind == ExpressionOperatorType.IsNotNull {
		return true
	}
	return isColumn(x.RightValue(), t.Column(1))
}

func gen_D16_statement(r *rand.Rand) (int, int, int, int, int) {
	return r.Intn(7), r.Intn(3), r.Intn(3), r.Intn(3), r.Intn(4)
}

// A filter statement has the table, limit and order it says.
//
//verif:bounded up to two ordering terms
func contract_D16_statement(top, count, way0, way1, exact int) {
	vpRequires(top >= 0 && top < 7 && count >= 0 && count < 3 && way0 >= 0 && way0 < 3 && way1 >= 0 && way1 < 3 && exact >= 0 && exact < 4)
	vpCase(top, 0, 6, func(top int) {
		vpCase(count, 0, 2, func(count int) {
			vpCase(way0, 0, 2, func(way0 int) {
				vpCase(way1, 0, 2, func(way1 int) {
					vpCase(exact, 0, 3, func(exact int) {
						checkStatement(top, []vpTerm{{"Two", way0, exact&1 != 0, "BINARY"}, {"one", way1, exact&2 != 0, "==="}}[:count])
					})
				})
			})
		})
	})
}

func checkStatement(top int, terms []vpTerm) {
	limit := []string{"", "0", "1", "25", "-1", "+7", "123456"}[top]
	want := []int{-1, 0, 1, 25, -1, 7, 123456}[top]
	t := vpSource()
	tree := parseOne(t, vpProgram(filterStatement(vpStatement{"source", limit, terms}, whole(column("ONE")))))
	vpEnsures("table of the statement", strings.ToUpper(tree.TableName) == "SOURCE")
	vpEnsures("limit of the statement", tree.TopLimit == want || tree.TopLimit < 0 && want < 0)
	vpEnsures("condition of the statement", isColumn(tree.Root, t.Column(0)))
	vpEnsures("terms counted", len(tree.OrderByTerms) == len(terms))
	for i, o := range tree.OrderByTerms {
		vpEnsures("column of the term", o.Column == t.Column(1-i))
		vpEnsures("direction of the term", o.Ascending == (terms[i].way != 2))
		vpEnsures("case matters to the term if it says so", o.ExactMatch == terms[i].exact)
	}
}

func gen_D16_operators(r *rand.Rand) int { return r.Intn(len(vpOperators)) }

// vpOperators has the operators of two values, the level they have in the
// syntax and their token.
var vpOperators = []struct {
	level int
	token int
	text  string
	kind  ExpressionOperatorTypeEnum
}{
	{0, 0, "*", ExpressionOperatorType.Multiply},
	{0, 0, "/", ExpressionOperatorType.Divide},
	{0, 0, "%", ExpressionOperatorType.Modulus},
	{0, 0, "+", ExpressionOperatorType.Add},
	{0, 0, "-", ExpressionOperatorType.Subtract},
	{1, 0, "<<", ExpressionOperatorType.BitShiftLeft},
	{1, 0, ">>", ExpressionOperatorType.BitShiftRight},
	{1, 0, "&", ExpressionOperatorType.BitwiseAnd},
	{1, 0, "|", ExpressionOperatorType.BitwiseOr},
	{1, 0, "^", ExpressionOperatorType.BitwiseXor},
	{1, parser.FilterExpressionSyntaxParserK_XOR, "XOR", ExpressionOperatorType.BitwiseXor},
	{2, 0, "<", ExpressionOperatorType.LessThan},
	{2, 0, "<=", ExpressionOperatorType.LessThanOrEqual},
	{2, 0, ">", ExpressionOperatorType.GreaterThan},
	{2, 0, ">=", ExpressionOperatorType.GreaterThanOrEqual},
	{2, 0, "=", ExpressionOperatorType.Equal},
	{2, 0, "==", ExpressionOperatorType.Equal},
	{2, 0, "===", ExpressionOperatorType.EqualExactMatch},
	{2, 0, "!=", ExpressionOperatorType.NotEqual},
	{2, 0, "<>", ExpressionOperatorType.NotEqual},
	{2, 0, "!==", ExpressionOperatorType.NotEqualExactMatch},
	{3, parser.FilterExpressionSyntaxParserK_AND, "AND", ExpressionOperatorType.And},
	{3, 0, "&&", ExpressionOperatorType.And},
	{3, parser.FilterExpressionSyntaxParserK_OR, "or", ExpressionOperatorType.Or},
	{3, 0, "||", ExpressionOperatorType.Or},
}

// Each operator sign stands for its operator, on the values left and right of it.
func contract_D16_operators(n int) {
	vpRequires(n >= 0 && n < len(vpOperators))
	vpCase(n, 0, len(vpOperators)-1, func(n int) {
		o := vpOperators[n]
		t := vpSource()
		sign := tok(o.token, o.text)
		var e antlr.ParserRuleContext
		switch o.level {
		case 0:
			e = whole(value(column("One"), under(parser.NewMathOperatorContext(nil, nil, 0), sign), column("Two")))
		case 1:
			e = whole(value(column("One"), under(parser.NewBitwiseOperatorContext(nil, nil, 0), sign), column("Two")))
		case 2:
			e = expression(predicate(predicate(column("One")), under(parser.NewComparisonOperatorContext(nil, nil, 0), sign), predicate(column("Two"))))
		case 3:
			e = expression(whole(column("One")), under(parser.NewLogicalOperatorContext(nil, nil, 0), sign), whole(column("Two")))
		}
		tree := parseOne(t, vpProgram(e))
		vpEnsures("operator on its two values", isOperator(tree.Root, o.kind, t))
	})
}

func gen_D16_unary(r *rand.Rand) int { return r.Intn(9) }

// Signs, negation and parentheses stand for what they say.
func contract_D16_unary(n int) {
	vpRequires(n >= 0 && n < 9)
	vpCase(n, 0, 8, func(n int) {
		t := vpSource()
		one := column("One")
		if n == 8 {
			tree := parseOne(t, vpProgram(whole(value(sym("("), whole(one), sym(")")))))
			vpEnsures("parentheses keep the value", isColumn(tree.Root, t.Column(0)))
			return
		}
		if n == 7 {
			one = value(sym("("), whole(one), sym(")"))
		}
		word := tok(parser.FilterExpressionSyntaxParserK_NOT, "NOT")
		sign := []*vpToken{sym("-"), sym("+"), sym("~"), sym("!"), word, sym("!"), word, sym("-")}[n]
		want := ExpressionUnaryType.Not
		switch sign.text {
		case "-":
			want = ExpressionUnaryType.Minus
		case "+":
			want = ExpressionUnaryType.Plus
		}
		e := whole(value(under(parser.NewUnaryOperatorContext(nil, nil, 0), sign), one))
		if n == 5 || n == 6 {
			e = expression(under(parser.NewNotOperatorContext(nil, nil, 0), sign), whole(one))
		}
		tree := parseOne(t, vpProgram(e))
		x, ok := tree.Root.(*UnaryExpression)
		vpEnsures("unary operator on its value", ok && x.UnaryType() == want && isColumn(x.Value(), t.Column(0)))
	})
}

func gen_D16_predicates(r *rand.Rand) (int, bool, bool) {
	return r.Intn(4), r.Intn(2) == 0, r.Intn(2) == 0
}

// IN, LIKE and IS NULL take their values, NOT and BINARY.
//
//verif:bounded lists of one or two values
func contract_D16_predicates(n int, not, exact bool) {
	vpRequires(n >= 0 && n < 4)
	vpCase(n, 0, 3, func(n int) {
		if not {
			if exact {
				checkPredicate(n, true, true)
				return
			}
			checkPredicate(n, true, false)
			return
		}
		if exact {
			checkPredicate(n, false, true)
			return
		}
		checkPredicate(n, false, false)
	})
}

func checkPredicate(n int, not, exact bool) {
	t := vpSource()
	e := predicate(predicate(column("One")))
	if n < 2 {
		// predicate NOT? IN BINARY? ( list )
		if not {
			under(e, under(parser.NewNotOperatorContext(nil, nil, 0), tok(parser.FilterExpressionSyntaxParserK_NOT, "NOT")))
		}
		under(e, tok(parser.FilterExpressionSyntaxParserK_IN, "IN"))
		if exact {
			under(e, exactMatch("BINARY"))
		}
		list := under(parser.NewExpressionListContext(nil, nil, 0), whole(column("Two")))
		if n == 1 {
			under(list, sym(","), whole(column("One")))
		}
		under(e, sym("("), list, sym(")"))
		tree := parseOne(t, vpProgram(expression(e)))
		x, ok := tree.Root.(*InListExpression)
		vpEnsures("list expression", ok && isColumn(x.Value(), t.Column(0)) && x.HasNotKeyword() == not && x.ExtactMatch() == exact)
		vpEnsures("values of the list counted", len(x.Arguments()) == n+1)
		vpEnsures("values of the list", isColumn(x.Arguments()[0], t.Column(1)) && isColumn(x.Arguments()[n], t.Column(1-n)))
		return
	}
	if n == 2 {
		// predicate NOT? LIKE BINARY? predicate
		if not {
			under(e, under(parser.NewNotOperatorContext(nil, nil, 0), sym("!")))
		}
		under(e, tok(parser.FilterExpressionSyntaxParserK_LIKE, "LIKE"))
		if exact {
			under(e, exactMatch("==="))
		}
		under(e, predicate(column("Two")))
		kind := ExpressionOperatorType.Like
		switch {
		case not && exact:
			kind = ExpressionOperatorType.NotLikeExactMatch
		case not:
			kind = ExpressionOperatorType.NotLike
		case exact:
			kind = ExpressionOperatorType.LikeExactMatch
		}
		tree := parseOne(t, vpProgram(expression(e)))
		vpEnsures("pattern expression", isOperator(tree.Root, kind, t))
		return
	}
	// predicate IS NOT? NULL
	under(e, tok(parser.FilterExpressionSyntaxParserK_IS, "IS"))
	kind := ExpressionOperatorType.IsNull
	if not {
		under(e, under(parser.NewNotOperatorContext(nil, nil, 0), tok(parser.FilterExpressionSyntaxParserK_NOT, "not")))
		kind = ExpressionOperatorType.IsNotNull
	}
	under(e, tok(parser.FilterExpressionSyntaxParserK_NULL, "NULL"))
	tree := parseOne(t, vpProgram(expression(e)))
	vpEnsures("null test", isOperator(tree.Root, kind, t))
}

// vpFunctions has the names of the functions.
var vpFunctions = []struct {
	token int
	text  string
	kind  ExpressionFunctionTypeEnum
}{
	{parser.FilterExpressionSyntaxParserK_ABS, "Abs", ExpressionFunctionType.Abs},
	{parser.FilterExpressionSyntaxParserK_CEILING, "Ceiling", ExpressionFunctionType.Ceiling},
	{parser.FilterExpressionSyntaxParserK_COALESCE, "Coalesce", ExpressionFunctionType.Coalesce},
	{parser.FilterExpressionSyntaxParserK_CONVERT, "Convert", ExpressionFunctionType.Convert},
	{parser.FilterExpressionSyntaxParserK_CONTAINS, "Contains", ExpressionFunctionType.Contains},
	{parser.FilterExpressionSyntaxParserK_DATEADD, "DateAdd", ExpressionFunctionType.DateAdd},
	{parser.FilterExpressionSyntaxParserK_DATEDIFF, "DateDiff", ExpressionFunctionType.DateDiff},
	{parser.FilterExpressionSyntaxParserK_DATEPART, "DatePart", ExpressionFunctionType.DatePart},
	{parser.FilterExpressionSyntaxParserK_ENDSWITH, "EndsWith", ExpressionFunctionType.EndsWith},
	{parser.FilterExpressionSyntaxParserK_FLOOR, "Floor", ExpressionFunctionType.Floor},
	{parser.FilterExpressionSyntaxParserK_IIF, "IIf", ExpressionFunctionType.IIf},
	{parser.FilterExpressionSyntaxParserK_INDEXOF, "IndexOf", ExpressionFunctionType.IndexOf},
	{parser.FilterExpressionSyntaxParserK_ISDATE, "IsDate", ExpressionFunctionType.IsDate},
	{parser.FilterExpressionSyntaxParserK_ISINTEGER, "IsInteger", ExpressionFunctionType.IsInteger},
	{parser.FilterExpressionSyntaxParserK_ISGUID, "IsGuid", ExpressionFunctionType.IsGuid},
	{parser.FilterExpressionSyntaxParserK_ISNULL, "IsNull", ExpressionFunctionType.IsNull},
	{parser.FilterExpressionSyntaxParserK_ISNUMERIC, "IsNumeric", ExpressionFunctionType.IsNumeric},
	{parser.FilterExpressionSyntaxParserK_LASTINDEXOF, "LastIndexOf", ExpressionFunctionType.LastIndexOf},
	{parser.FilterExpressionSyntaxParserK_LEN, "Len", ExpressionFunctionType.Len},
	{parser.FilterExpressionSyntaxParserK_LOWER, "Lower", ExpressionFunctionType.Lower},
	{parser.FilterExpressionSyntaxParserK_MAXOF, "MaxOf", ExpressionFunctionType.MaxOf},
	{parser.FilterExpressionSyntaxParserK_MINOF, "MinOf", ExpressionFunctionType.MinOf},
	{parser.FilterExpressionSyntaxParserK_NOW, "Now", ExpressionFunctionType.Now},
	{parser.FilterExpressionSyntaxParserK_NTHINDEXOF, "NthIndexOf", ExpressionFunctionType.NthIndexOf},
	{parser.FilterExpressionSyntaxParserK_POWER, "Power", ExpressionFunctionType.Power},
	{parser.FilterExpressionSyntaxParserK_REGEXMATCH, "RegExMatch", ExpressionFunctionType.RegExMatch},
	{parser.FilterExpressionSyntaxParserK_REGEXVAL, "RegExVal", ExpressionFunctionType.RegExVal},
	{parser.FilterExpressionSyntaxParserK_REPLACE, "Replace", ExpressionFunctionType.Replace},
	{parser.FilterExpressionSyntaxParserK_REVERSE, "Reverse", ExpressionFunctionType.Reverse},
	{parser.FilterExpressionSyntaxParserK_ROUND, "Round", ExpressionFunctionType.Round},
	{parser.FilterExpressionSyntaxParserK_SPLIT, "Split", ExpressionFunctionType.Split},
	{parser.FilterExpressionSyntaxParserK_SQRT, "Sqrt", ExpressionFunctionType.Sqrt},
	{parser.FilterExpressionSyntaxParserK_STARTSWITH, "StartsWith", ExpressionFunctionType.StartsWith},
	{parser.FilterExpressionSyntaxParserK_STRCOUNT, "StrCount", ExpressionFunctionType.StrCount},
	{parser.FilterExpressionSyntaxParserK_STRCMP, "StrCmp", ExpressionFunctionType.StrCmp},
	{parser.FilterExpressionSyntaxParserK_SUBSTR, "SubStr", ExpressionFunctionType.SubStr},
	{parser.FilterExpressionSyntaxParserK_TRIM, "Trim", ExpressionFunctionType.Trim},
	{parser.FilterExpressionSyntaxParserK_TRIMLEFT, "TrimLeft", ExpressionFunctionType.TrimLeft},
	{parser.FilterExpressionSyntaxParserK_TRIMRIGHT, "TrimRight", ExpressionFunctionType.TrimRight},
	{parser.FilterExpressionSyntaxParserK_UPPER, "Upper", ExpressionFunctionType.Upper},
	{parser.FilterExpressionSyntaxParserK_UTCNOW, "UtcNow", ExpressionFunctionType.UtcNow},
}

func gen_D16_functions(r *rand.Rand) (int, int) { return r.Intn(len(vpFunctions)), r.Intn(4) }

// Each function name stands for its function, with its arguments in order.
//
//verif:bounded up to three arguments
func contract_D16_functions(n, arguments int) {
	vpRequires(n >= 0 && n < len(vpFunctions) && arguments >= 0 && arguments < 4)
	vpCase(n, 0, len(vpFunctions)-1, func(n int) {
		vpCase(arguments, 0, 3, func(arguments int) {
			f := vpFunctions[n]
			t := vpSource()
			e := under(parser.NewFunctionExpressionContext(nil, nil, 0), under(parser.NewFunctionNameContext(nil, nil, 0), tok(f.token, f.text)), sym("("))
			if arguments > 0 {
				list := parser.NewExpressionListContext(nil, nil, 0)
				for i := 0; i < arguments; i++ {
					if i > 0 {
						under(list, sym(","))
					}
					under(list, whole(column([]string{"One", "Two", "One"}[i])))
				}
				under(e, list)
			}
			under(e, sym(")"))
			tree := parseOne(t, vpProgram(whole(value(e))))
			x, ok := tree.Root.(*FunctionExpression)
			vpEnsures("function of the name", ok && x.FunctionType() == f.kind)
			vpEnsures("arguments counted", len(x.Arguments()) == arguments)
			for i, a := range x.Arguments() {
				vpEnsures("arguments in order", isColumn(a, t.Column(i%2)))
			}
		})
	})
}

func literalOf(kind int, text string) (*ValueExpression, bool) {
	t := vpSource()
	trees, err := GenerateExpressionTrees(t.Parent(), "Source", vpProgram(whole(literal(kind, text))), true)
	if err != nil || len(trees) != 1 {
		return nil, false
	}
	v, ok := trees[0].Root.(*ValueExpression)
	return v, ok
}

func gen_D16_numbers(r *rand.Rand) (string, bool) {
	if r.Intn(2) == 0 {
		return []string{"0", "7", "2147483647", "2147483648", "9223372036854775807", "9223372036854775808", "18446744073709551616", "0x1F", strconv.Itoa(1 + r.Intn(1<<30))}[r.Intn(9)], true
	}
	return []string{"1.5", "0.25", ".5", "1e3", "2.5E-2", "12.", "1e400", "99999999999999999999.5"}[r.Intn(8)], false
}

// A number has its value: Int32 if it is whole and fits, else Int64, else
// Decimal; Double if it has an exponent.
func contract_D16_numbers(text string, isWhole bool) {
	vpRequires(len(text) > 0)
	if vpConcrete() {
		pattern := `^([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?$`
		if isWhole {
			pattern = `^([0-9]+|0[xX][0-9a-fA-F]+)$`
		}
		ok, _ := regexp.MatchString(pattern, text)
		digits, _ := regexp.MatchString(`^[0-9]+$`, text)
		vpRequires(ok && (isWhole || !digits))
	}
	if isWhole {
		checkWhole(text)
		return
	}
	got, ok := literalOf(parser.FilterExpressionSyntaxParserNUMERIC_LITERAL, text)
	vpEnsures("literal of a number", ok)
	if strings.ContainsAny(text, "Ee") {
		if f, err := strconv.ParseFloat(text, 64); err == nil {
			vpEnsures("number with an exponent", is(got, nil, vDouble, f))
		}
		return
	}
	if d, err := decimal.NewFromString(text); err == nil {
		vpEnsures("number with a point", is(got, nil, vDecimal, d))
	}
}

func checkWhole(text string) {
	i, err := strconv.ParseInt(text, 0, 64)
	u, uerr := strconv.ParseUint(text, 0, 64)
	d, derr := decimal.NewFromString(text)
	// what the functions of the library have in common on a text without sign
	if err == nil {
		vpRequires(i >= 0 && uerr == nil && u == uint64(i))
	} else {
		vpRequires(uerr != nil || u > math.MaxInt64)
	}
	got, ok := literalOf(parser.FilterExpressionSyntaxParserINTEGER_LITERAL, text)
	vpEnsures("literal of a whole number", ok)
	if err == nil {
		if i <= math.MaxInt32 {
			vpEnsures("small whole number", is(got, nil, vInt32, int32(i)))
		} else {
			vpEnsures("large whole number", is(got, nil, vInt64, i))
		}
	} else if derr == nil {
		vpEnsures("larger whole number", is(got, nil, vDecimal, d))
	}
}

func gen_D16_literals(r *rand.Rand) (int, string) {
	n := r.Intn(7)
	if n == 2 {
		return n, []string{"2020-01-02", "2021-03-04 05:06:07", "1/2/2019"}[r.Intn(3)]
	}
	return n, []string{"", "a", "a b", "FILTER", "*", "x%"}[r.Intn(6)]
}

// Text, dates, GUIDs, truth values and null have the value they say.
func contract_D16_literals(n int, text string) {
	vpRequires(n >= 0 && n < 7)
	if vpConcrete() {
		vpRequires(utf8.ValidString(text))
	}
	vpCase(n, 0, 6, func(n int) {
		switch n {
		case 0, 1:
			vpRequires(!strings.Contains(text, "'"))
			got, ok := literalOf(parser.FilterExpressionSyntaxParserSTRING_LITERAL, "'"+text+"'")
			vpEnsures("text", ok && is(got, nil, vString, text))
		case 2:
			vpRequires(len(text) > 0 && !strings.Contains(text, "#"))
			d, err := dateparse.ParseAny(text)
			got, ok := literalOf(parser.FilterExpressionSyntaxParserDATETIME_LITERAL, "#"+text+"#")
			if err != nil {
				vpEnsures("what is no date is an error", !ok)
			} else {
				vpEnsures("date", ok && is(got, nil, vDateTime, d.UTC()))
			}
		case 3:
			for _, l := range []string{"{93673c68-d59d-4926-b7e9-e7678f9f66b4}", "93673c68-d59d-4926-b7e9-e7678f9f66b4", "'93673c68-d59d-4926-b7e9-e7678f9f66b4'"} {
				s := l
				if l[0] == '\'' {
					s = l[1 : len(l)-1]
				}
				id, err := guid.Parse(s)
				vpRequires(err == nil)
				// a value next to something, alone it identifies a signal
				t := vpSource()
				e := literal(parser.FilterExpressionSyntaxParserGUID_LITERAL, l)
				tree := parseOne(t, vpProgram(whole(value(sym("("), whole(e), sym(")")))))
				v, ok := tree.Root.(*ValueExpression)
				vpEnsures("GUID", ok && is(v, nil, vGuid, id))
			}
		case 4:
			for _, l := range []string{"TRUE", "true", "True"} {
				got, ok := literalOf(parser.FilterExpressionSyntaxParserBOOLEAN_LITERAL, l)
				vpEnsures("true", ok && is(got, nil, vBool, true))
			}
		case 5:
			for _, l := range []string{"FALSE", "false", "False"} {
				got, ok := literalOf(parser.FilterExpressionSyntaxParserBOOLEAN_LITERAL, l)
				vpEnsures("false", ok && is(got, nil, vBool, false))
			}
		case 6:
			got, ok := literalOf(parser.FilterExpressionSyntaxParserK_NULL, "NULL")
			vpEnsures("null", ok && got.ValueType() == ExpressionValueType.Undefined && got.IsNull())
		}
	})
}

func gen_D16_unknown(r *rand.Rand) int { return r.Intn(4) }

// Unknown tables and columns are errors.
func contract_D16_unknown(n int) {
	vpRequires(n >= 0 && n < 4)
	vpCase(n, 0, 3, func(n int) {
		t := vpSource()
		var e antlr.ParserRuleContext
		switch n {
		case 0:
			e = filterStatement(vpStatement{table: "Other"}, whole(column("One")))
		case 1:
			e = filterStatement(vpStatement{table: "Source"}, whole(column("Three")))
		case 2:
			e = filterStatement(vpStatement{"Source", "", []vpTerm{{"Three", 0, false, ""}}}, whole(column("One")))
		case 3:
			e = whole(column("Three"))
		}
		_, err := GenerateExpressionTrees(t.Parent(), "Source", vpProgram(e), true)
		vpEnsures("unknown name is an error", err != nil)
	})
}
