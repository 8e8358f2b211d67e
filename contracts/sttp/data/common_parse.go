package data

import (
	"strings"

	"github.com/antlr/antlr4/runtime/Go/antlr"
	"github.com/sttp/goapi/sttp/data/parser"
)

// Parse trees as the grammar has them. Replays give the text of the tree to the
// parser instead.

var vpParsed *parser.ParseContext

//verif:for (*github.com/sttp/goapi/sttp/data/parser.FilterExpressionSyntaxParser).Parse
func sum_parse(p *parser.FilterExpressionSyntaxParser) parser.IParseContext { return vpParsed }

//verif:for github.com/antlr/antlr4/runtime/Go/antlr.NewInputStream
func sum_input(text string) *antlr.InputStream { return nil }

//verif:for github.com/sttp/goapi/sttp/data/parser.NewFilterExpressionSyntaxLexer
func sum_lexer(input antlr.CharStream) *parser.FilterExpressionSyntaxLexer { return nil }

//verif:for github.com/antlr/antlr4/runtime/Go/antlr.NewCommonTokenStream
func sum_tokens(lexer antlr.Lexer, channel int) *antlr.CommonTokenStream { return nil }

//verif:for github.com/sttp/goapi/sttp/data/parser.NewFilterExpressionSyntaxParser
func sum_parser(input antlr.TokenStream) *parser.FilterExpressionSyntaxParser {
	return &parser.FilterExpressionSyntaxParser{BaseParser: &antlr.BaseParser{BaseRecognizer: &antlr.BaseRecognizer{}}}
}

// vpToken is a token of the text.
type vpToken struct {
	antlr.Token
	kind int
	text string
}

func (t *vpToken) GetTokenType() int { return t.kind }
func (t *vpToken) GetText() string   { return t.text }

func tok(kind int, text string) *vpToken { return &vpToken{kind: kind, text: text} }

// sym is a token that is not a word.
func sym(text string) *vpToken { return tok(0, text) }

// under puts tokens and nodes under a node.
func under[N antlr.ParserRuleContext](n N, children ...any) N {
	for _, c := range children {
		if c == nil {
			continue
		}
		if t, ok := c.(*vpToken); ok {
			if t != nil {
				n.AddTokenNode(t)
			}
		} else {
			n.AddChild(c.(antlr.RuleContext))
		}
	}
	return n
}

// vpText is the text of a tree, with spaces between the tokens.
func vpTextOf(t antlr.Tree) string {
	if n, ok := t.(antlr.TerminalNode); ok {
		return n.GetText()
	}
	var words []string
	for _, c := range t.GetChildren() {
		words = append(words, vpTextOf(c))
	}
	return strings.Join(words, " ")
}

// vpProgram is an expression of statements; the text matters to replays only.
func vpProgram(statements ...antlr.ParserRuleContext) string {
	list := parser.NewFilterExpressionStatementListContext(nil, nil, 0)
	for i, s := range statements {
		if i > 0 {
			under(list, sym(";"))
		}
		under(list, under(parser.NewFilterExpressionStatementContext(nil, nil, 0), s))
	}
	vpParsed = under(parser.NewParseContext(nil, nil, 0), list)
	if vpConcrete() {
		return vpTextOf(vpParsed)
	}
	return "text"
}

func identifierStatement(kind int, text string) antlr.ParserRuleContext {
	return under(parser.NewIdentifierStatementContext(nil, nil, 0), tok(kind, text))
}

// vpStatement is what a filter statement says besides its condition.
type vpStatement struct {
	table string
	top   string
	terms []vpTerm
}

type vpTerm struct {
	column  string
	way     int // 0 none, 1 ASC, 2 DESC
	exact   bool
	exactly string
}

func filterStatement(s vpStatement, condition antlr.ParserRuleContext) antlr.ParserRuleContext {
	n := parser.NewFilterStatementContext(nil, nil, 0)
	under(n, tok(parser.FilterExpressionSyntaxParserK_FILTER, "FILTER"))
	if s.top != "" {
		limit := parser.NewTopLimitContext(nil, nil, 0)
		text := s.top
		if text[0] == '-' || text[0] == '+' {
			under(limit, sym(text[:1]))
			text = text[1:]
		}
		under(limit, tok(parser.FilterExpressionSyntaxParserINTEGER_LITERAL, text))
		under(n, tok(parser.FilterExpressionSyntaxParserK_TOP, "TOP"), limit)
	}
	under(n, under(parser.NewTableNameContext(nil, nil, 0), tok(parser.FilterExpressionSyntaxParserIDENTIFIER, s.table)))
	under(n, tok(parser.FilterExpressionSyntaxParserK_WHERE, "WHERE"), condition)
	for i, t := range s.terms {
		if i == 0 {
			under(n, tok(parser.FilterExpressionSyntaxParserK_ORDER, "ORDER"), tok(parser.FilterExpressionSyntaxParserK_BY, "BY"))
		} else {
			under(n, sym(","))
		}
		term := parser.NewOrderingTermContext(nil, nil, 0)
		if t.exact {
			under(term, exactMatch(t.exactly))
		}
		under(term, under(parser.NewOrderByColumnNameContext(nil, nil, 0), tok(parser.FilterExpressionSyntaxParserIDENTIFIER, t.column)))
		if t.way == 1 {
			under(term, tok(parser.FilterExpressionSyntaxParserK_ASC, "ASC"))
		} else if t.way == 2 {
			under(term, tok(parser.FilterExpressionSyntaxParserK_DESC, "DESC"))
		}
		under(n, term)
	}
	return n
}

func exactMatch(text string) antlr.ParserRuleContext {
	kind := 0
	if text == "BINARY" {
		kind = parser.FilterExpressionSyntaxParserK_BINARY
	}
	return under(parser.NewExactMatchModifierContext(nil, nil, 0), tok(kind, text))
}

// The three kinds of expression.

func expression(children ...any) antlr.ParserRuleContext {
	return under(parser.NewExpressionContext(nil, nil, 0), children...)
}

func predicate(children ...any) antlr.ParserRuleContext {
	return under(parser.NewPredicateExpressionContext(nil, nil, 0), children...)
}

func value(children ...any) antlr.ParserRuleContext {
	return under(parser.NewValueExpressionContext(nil, nil, 0), children...)
}

// column is the value of a column.
func column(name string) antlr.ParserRuleContext {
	return value(under(parser.NewColumnNameContext(nil, nil, 0), tok(parser.FilterExpressionSyntaxParserIDENTIFIER, name)))
}

// literal is the value of a literal.
func literal(kind int, text string) antlr.ParserRuleContext {
	return value(under(parser.NewLiteralValueContext(nil, nil, 0), tok(kind, text)))
}

// whole is a value as a whole expression.
func whole(value antlr.ParserRuleContext) antlr.ParserRuleContext {
	return expression(predicate(value))
}
