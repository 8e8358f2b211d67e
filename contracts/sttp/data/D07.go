package data

import (
	"math/rand"
	"regexp"
	"strings"
)

//verif:with common_value.go
//verif:with common_text.go

// D07: text functions and LIKE of filter expressions.

func gen_D07_search(r *rand.Rand) (vpVal, vpVal, vpVal, bool, int) {
	return vpText(r), vpText(r), vpRandom(r), r.Intn(2) == 0, r.Intn(6)
}
func gen_D07_single(r *rand.Rand) (vpVal, int)         { return vpText(r), r.Intn(6) }
func gen_D07_strCmp(r *rand.Rand) (vpVal, vpVal, bool) { return vpText(r), vpText(r), r.Intn(2) == 0 }
func gen_D07_subStr(r *rand.Rand) (vpVal, vpVal, vpVal, bool) {
	return vpText(r), vpWhole(r), vpWhole(r), r.Intn(2) == 0
}
func gen_D07_replace(r *rand.Rand) (vpVal, vpVal, vpVal, bool) {
	return vpText(r), vpText(r), vpText(r), r.Intn(2) == 0
}
func gen_D07_split(r *rand.Rand) (vpVal, vpVal, vpVal, bool) {
	return vpText(r), vpText(r), vpWhole(r), r.Intn(2) == 0
}
func gen_D07_nthIndexOf(r *rand.Rand) (vpVal, vpVal, vpVal, bool) {
	return vpText(r), vpText(r), vpWhole(r), r.Intn(2) == 0
}
func gen_D07_regEx(r *rand.Rand) (vpVal, vpVal, bool) { return vpText(r), vpText(r), r.Intn(2) == 0 }
func gen_D07_like(r *rand.Rand) (vpVal, vpVal, int)   { return vpText(r), vpText(r), r.Intn(4) }

// Functions that look for a text in another one.
func contract_D07_search(s, t, c vpVal, three bool, fn int) {
	vpRequires(fn >= 0 && fn <= 5)
	vpRequires(c.Kind == vBool)
	c.Kind = vBool
	for f := 0; f <= 5; f++ {
		if fn == f {
			vpKinds(s, t, func(s, t vpVal) { vpSearch(f, s, t, c, three) })
			return
		}
	}
}

func vpSearch(fn int, s, t, c vpVal, three bool) {
	f := [...]ExpressionFunctionTypeEnum{ExpressionFunctionType.Contains, ExpressionFunctionType.StartsWith, ExpressionFunctionType.EndsWith,
		ExpressionFunctionType.IndexOf, ExpressionFunctionType.LastIndexOf, ExpressionFunctionType.StrCount}[fn]
	var got *ValueExpression
	var err error
	if three {
		got, err = call(f, s, t, c)
	} else {
		got, err = call(f, s, t)
	}
	s, t = s.typed(vString), t.typed(vString)
	if s.Kind != vString || t.Kind != vString {
		vpEnsures("arguments that are not text are an error", err != nil)
		return
	}
	a, b := s.S, t.S
	if three && !c.Null && c.B {
		a, b = strings.ToUpper(a), strings.ToUpper(b)
	}
	switch fn {
	case 0, 1, 2:
		if s.Null {
			vpEnsures("null source gives null", is(got, err, vBool, nil))
			return
		}
		if t.Null {
			vpEnsures("null is not found", is(got, err, vBool, false))
			return
		}
		switch fn {
		case 0:
			vpEnsures("contains", is(got, err, vBool, strings.Contains(a, b)))
		case 1:
			vpEnsures("starts with", is(got, err, vBool, strings.HasPrefix(a, b)))
		case 2:
			vpEnsures("ends with", is(got, err, vBool, strings.HasSuffix(a, b)))
		}
	case 3, 4:
		if t.Null {
			vpEnsures("null test text is an error", err != nil)
			return
		}
		if s.Null {
			vpEnsures("null source has no index", is(got, err, vInt32, nil))
			return
		}
		if fn == 3 {
			vpEnsures("index", is(got, err, vInt32, int32(strings.Index(a, b))))
			return
		}
		vpEnsures("last index", is(got, err, vInt32, int32(strings.LastIndex(a, b))))
	case 5:
		if s.Null || t.Null || len(t.S) == 0 {
			vpEnsures("nothing to count", is(got, err, vInt32, int32(0)))
			return
		}
		vpEnsures("count", is(got, err, vInt32, int32(strings.Count(a, b))))
	}
}

// Functions of one text.
func contract_D07_single(s vpVal, fn int) {
	vpRequires(fn >= 0 && fn <= 5)
	for f := 0; f <= 5; f++ {
		if fn == f {
			vpKind(s, func(s vpVal) { vpSingle(f, s) })
			return
		}
	}
}

func vpSingle(fn int, s vpVal) {
	got, err := call([...]ExpressionFunctionTypeEnum{ExpressionFunctionType.Len, ExpressionFunctionType.Lower, ExpressionFunctionType.Upper,
		ExpressionFunctionType.Trim, ExpressionFunctionType.TrimLeft, ExpressionFunctionType.TrimRight}[fn], s)
	s = s.typed(vString)
	if s.Kind != vString {
		vpEnsures("arguments that are not text are an error", err != nil)
		return
	}
	if s.Null && fn == 0 {
		vpEnsures("null has no length", is(got, err, vInt32, nil))
		return
	}
	if s.Null {
		vpEnsures("null stays null", is(got, err, vString, nil))
		return
	}
	switch fn {
	case 0:
		vpEnsures("length", is(got, err, vInt32, int32(len(s.S))))
	case 1:
		vpEnsures("lower case", is(got, err, vString, strings.ToLower(s.S)))
	case 2:
		vpEnsures("upper case", is(got, err, vString, strings.ToUpper(s.S)))
	case 3:
		vpEnsures("trimmed", is(got, err, vString, strings.TrimSpace(s.S)))
	case 4:
		vpEnsures("trimmed left", is(got, err, vString, strings.TrimLeft(s.S, whitespace)))
	case 5:
		vpEnsures("trimmed right", is(got, err, vString, strings.TrimRight(s.S, whitespace)))
	}
}

func contract_D07_strCmp(l, r vpVal, ignore bool) {
	vpKinds(l, r, func(l, r vpVal) {
		got, err := call(ExpressionFunctionType.StrCmp, l, r, vpVal{Kind: vBool, B: ignore})
		l, r = l.typed(vString), r.typed(vString)
		if l.Kind != vString || r.Kind != vString {
			vpEnsures("arguments that are not text are an error", err != nil)
			return
		}
		if l.Null || r.Null {
			w := int32(0)
			if !r.Null {
				w = -1
			} else if !l.Null {
				w = 1
			}
			vpEnsures("null comes before all texts", is(got, err, vInt32, w))
			return
		}
		a, b := l.S, r.S
		if ignore {
			a, b = strings.ToUpper(a), strings.ToUpper(b)
		}
		vpEnsures("text order", is(got, err, vInt32, int32(strings.Compare(a, b))))
	})
}

func contract_D07_subStr(s, i, n vpVal, three bool) {
	vpKinds(s, i, func(s, i vpVal) { vpKind(n, func(n vpVal) { vpSubStr(s, i, n, three) }) })
}

func vpSubStr(s, i, n vpVal, three bool) {
	var got *ValueExpression
	var err error
	if three {
		got, err = call(ExpressionFunctionType.SubStr, s, i, n)
	} else {
		got, err = call(ExpressionFunctionType.SubStr, s, i)
		n = vpVal{Kind: vUndefined}
	}
	s, i, n = s.typed(vString), i.typed(vInt32), n.typed(vInt32)
	if s.Kind != vString || i.Kind > vInt64 || n.Kind > vInt64 || i.Null {
		vpEnsures("arguments of other types are an error", err != nil)
		return
	}
	if s.Null {
		vpEnsures("null source gives null", is(got, err, vString, nil))
		return
	}
	from := specInt(i)
	if from < 0 || from >= int64(len(s.S)) {
		vpEnsures("nothing outside of the text", is(got, err, vString, ""))
		return
	}
	if n.Null {
		vpEnsures("rest of the text", is(got, err, vString, s.S[from:]))
		return
	}
	length := specInt(n)
	if length <= 0 {
		vpEnsures("no length gives no text", is(got, err, vString, ""))
		return
	}
	if length >= int64(len(s.S))-from {
		vpEnsures("up to the end of the text", is(got, err, vString, s.S[from:]))
		return
	}
	vpEnsures("part of the text", is(got, err, vString, s.S[from:from+length]))
}

func contract_D07_replace(s, t, w vpVal, ignore bool) {
	vpKinds(s, t, func(s, t vpVal) {
		vpKind(w, func(w vpVal) {
			got, err := call(ExpressionFunctionType.Replace, s, t, w, vpVal{Kind: vBool, B: ignore})
			s, t, w = s.typed(vString), t.typed(vString), w.typed(vString)
			if s.Kind != vString || t.Kind != vString || w.Kind != vString || t.Null || w.Null {
				vpEnsures("arguments of other types are an error", err != nil)
				return
			}
			if s.Null {
				vpEnsures("null source gives null", is(got, err, vString, nil))
				return
			}
			if !ignore {
				vpEnsures("replaced", is(got, err, vString, strings.ReplaceAll(s.S, t.S, w.S)))
				return
			}
			re, e := regexp.Compile("(?i)" + regexp.QuoteMeta(t.S))
			if e != nil {
				return
			}
			vpEnsures("replaced ignoring case", is(got, err, vString, re.ReplaceAllLiteralString(s.S, w.S)))
		})
	})
}

func contract_D07_split(s, t, i vpVal, ignore bool) {
	vpKinds(s, t, func(s, t vpVal) {
		vpKind(i, func(i vpVal) {
			got, err := call(ExpressionFunctionType.Split, s, t, i, vpVal{Kind: vBool, B: ignore})
			s, t, i = s.typed(vString), t.typed(vString), i.typed(vInt32)
			if s.Kind != vString || t.Kind != vString || i.Kind > vInt64 || t.Null || i.Null {
				vpEnsures("arguments of other types are an error", err != nil)
				return
			}
			if s.Null {
				vpEnsures("null source gives null", is(got, err, vString, nil))
				return
			}
			var parts []string
			if ignore {
				re, e := regexp.Compile("(?i)" + regexp.QuoteMeta(t.S))
				if e != nil {
					return
				}
				parts = re.Split(s.S, -1)
			} else {
				parts = strings.Split(s.S, t.S)
			}
			n := specInt(i)
			if n < 0 || n >= int64(len(parts)) {
				vpEnsures("no part outside of the range", is(got, err, vString, nil))
				return
			}
			vpEnsures("part", is(got, err, vString, parts[n]))
		})
	})
}

//verif:bounded occurrences up to the third
func contract_D07_nthIndexOf(s, t, i vpVal, ignore bool) {
	vpKinds(s, t, func(s, t vpVal) {
		vpKind(i, func(i vpVal) {
			if s.Kind != vString || t.Kind != vString || i.Kind > vInt64 || t.Null || i.Null {
				got, err := call(ExpressionFunctionType.NthIndexOf, s, t, i, vpVal{Kind: vBool, B: ignore})
				s, t, i = s.typed(vString), t.typed(vString), i.typed(vInt32)
				if s.Kind == vString && t.Kind == vString && i.Kind <= vInt64 && !t.Null && !i.Null {
					vpEnsures("null source gives null", is(got, err, vInt32, nil))
					return
				}
				vpEnsures("arguments of other types are an error", err != nil)
				return
			}
			if i.Kind == vBool {
				if i.B {
					i = vpVal{Kind: vInt32, I: 1}
				} else {
					i = vpVal{Kind: vInt32}
				}
			}
			for n := int64(-1); n <= 2; n++ {
				if specInt(i) == n {
					i.I = n
					vpNth(s, t, i, ignore)
					return
				}
			}
		})
	})
}

func vpNth(s, t, i vpVal, ignore bool) {
	got, err := call(ExpressionFunctionType.NthIndexOf, s, t, i, vpVal{Kind: vBool, B: ignore})
	if s.Null {
		vpEnsures("null source gives null", is(got, err, vInt32, nil))
		return
	}
	a, b := s.S, t.S
	if ignore {
		a, b = strings.ToUpper(a), strings.ToUpper(b)
	}
	at := -1
	for n := int64(0); n <= i.I; n++ {
		next := strings.Index(a, b)
		if next < 0 || n < i.I && next == len(a) {
			at = -1
			break
		}
		at += 1 + next
		if n < i.I {
			a = a[next+1:]
		}
	}
	vpEnsures("index of the occurrence", is(got, err, vInt32, int32(at)))
}

func contract_D07_regEx(p, s vpVal, value bool) {
	vpKinds(p, s, func(p, s vpVal) {
		fn, kind := ExpressionFunctionType.RegExMatch, vBool
		if value {
			fn, kind = ExpressionFunctionType.RegExVal, vString
		}
		got, err := call(fn, p, s)
		p, s = p.typed(vString), s.typed(vString)
		if p.Kind != vString || s.Kind != vString {
			vpEnsures("arguments that are not text are an error", err != nil)
			return
		}
		if p.Null || s.Null {
			vpEnsures("null argument gives null", is(got, err, kind, nil))
			return
		}
		re, e := regexp.Compile(p.S)
		if e != nil {
			vpEnsures("invalid expression is an error", err != nil)
			return
		}
		at := re.FindStringIndex(s.S)
		if !value {
			vpEnsures("matched", is(got, err, vBool, at != nil))
			return
		}
		if at == nil {
			vpEnsures("no match gives no text", is(got, err, vString, ""))
			return
		}
		vpEnsures("matched text", is(got, err, vString, s.S[at[0]:at[1]]))
	})
}

// LIKE and NOT LIKE, ignoring case and exact.
func contract_D07_like(s, p vpVal, op int) {
	vpRequires(op >= 0 && op <= 3)
	for o := 0; o <= 3; o++ {
		if op == o {
			vpKinds(s, p, func(s, p vpVal) { vpLike(o, s, p) })
			return
		}
	}
}

func vpLike(op int, s, p vpVal) {
	tree := NewExpressionTree()
	tree.Root = NewOperatorExpression(ExpressionOperatorTypeEnum(20+op), s.expr(), p.expr())
	got, err := tree.Evaluate(nil)

	s, p = s.typed(vBool), p.typed(vBool)
	if s.Null {
		vpEnsures("null is neither like nor unlike", is(got, err, vBool, nil))
		return
	}
	if s.Kind != vString || p.Kind != vString || p.Null {
		vpEnsures("operands that are not text are an error", err != nil)
		return
	}
	text, want := s.S, strings.ReplaceAll(p.S, "%", "*")
	before := strings.HasPrefix(want, "*")
	after := strings.HasSuffix(want, "*")
	if before {
		want = want[1:]
	}
	if after && len(want) > 0 {
		want = want[:len(want)-1]
	}
	all := len(want) == 0 && (before || after)
	if !all && strings.Contains(want, "*") {
		vpEnsures("wildcard in the middle is an error", err != nil)
		return
	}
	if op == 0 || op == 2 {
		text, want = strings.ToUpper(text), strings.ToUpper(want)
	}
	like := text == want
	switch {
	case all:
		like = true
	case before && after:
		like = strings.Contains(text, want)
	case before:
		like = strings.HasSuffix(text, want)
	case after:
		like = strings.HasPrefix(text, want)
	}
	vpEnsures("like", is(got, err, vBool, like == (op < 2)))
}
