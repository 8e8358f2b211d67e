package data

import (
	"regexp"
	"strings"
)

// What the contracts use of the string library.

//verif:for strings.Contains
func sum_contains(s, t string) bool {
	b := vpPure[bool]("contains", s, t)
	vpRequires(!b || len(t) <= len(s))
	return b
}

//verif:for strings.HasPrefix
func sum_hasPrefix(s, t string) bool {
	b := vpPure[bool]("hasPrefix", s, t)
	vpRequires(!b || len(t) <= len(s) && vpPure[bool]("contains", s, t))
	return b
}

//verif:for strings.HasSuffix
func sum_hasSuffix(s, t string) bool {
	b := vpPure[bool]("hasSuffix", s, t)
	vpRequires(!b || len(t) <= len(s) && vpPure[bool]("contains", s, t))
	return b
}

//verif:for strings.Index
func sum_index(s, t string) int {
	n := vpPure[int]("index", s, t)
	vpRequires(n >= -1 && n <= len(s)-len(t) || n == -1)
	vpRequires((n >= 0) == vpPure[bool]("contains", s, t))
	return n
}

//verif:for strings.LastIndex
func sum_lastIndex(s, t string) int {
	n := vpPure[int]("lastIndex", s, t)
	vpRequires(n >= -1 && n <= len(s)-len(t) || n == -1)
	vpRequires((n >= 0) == vpPure[bool]("contains", s, t))
	return n
}

//verif:for strings.ContainsRune
func sum_containsRune(s string, r rune) bool { return strings.Contains(s, string(r)) }

// A match of a regular expression lies within the text.
//
//verif:for (*regexp.Regexp).FindStringIndex
func sum_findStringIndex(re *regexp.Regexp, s string) []int {
	if !re.MatchString(s) {
		return nil
	}
	a := vpPure[int]("matchStart", re.String(), s)
	b := vpPure[int]("matchEnd", re.String(), s)
	vpRequires(a >= 0 && a <= b && b <= len(s))
	return []int{a, b}
}
