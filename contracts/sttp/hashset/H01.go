package hashset

import "math/rand"

// H01: a set changed by an operation holds exactly the elements the operation
// defines. k is any element.

func gen_H01_single(r *rand.Rand) (HashSet[int32], int32, int32) {
	return NewHashSet(vpInts(r)), int32(r.Intn(5)), int32(r.Intn(5))
}

func vpInts(r *rand.Rand) []int32 {
	s := make([]int32, r.Intn(5))
	for i := range s {
		s[i] = int32(r.Intn(5))
	}
	return s
}

func contract_H01_single(hs HashSet[int32], v, k int32) {
	vpRequires(hs != nil)
	had, hadK, n := hs.Contains(v), hs.Contains(k), len(hs)
	if hs.Contains(k) {
		vpEnsures("a set with an element is not empty", !hs.IsEmpty())
	}
	added := hs.Add(v)
	vpEnsures("add tells whether it was new", added == !had)
	vpEnsures("add", hs.Contains(v) && hs.Contains(k) == (hadK || k == v))
	vpEnsures("length after add", len(hs) == n+vpCount(!had))
	removed := hs.Remove(v)
	vpEnsures("remove tells whether it was there", removed)
	vpEnsures("remove", !hs.Contains(v) && hs.Contains(k) == (hadK && k != v))
	vpEnsures("length after remove", len(hs) == n-vpCount(had))
	vpEnsures("remove again", !hs.Remove(v) && hs.Contains(k) == (hadK && k != v))
}

func vpCount(b bool) int {
	if b {
		return 1
	}
	return 0
}

// vpIn tells whether k is among the first n elements.
func vpIn(s []int32, n int, k int32) bool {
	return !vpForall(0, n, func(j int) bool { return vpAt(s, j) != k })
}

// vpAfter tells whether k is among the elements after the i-th one.
func vpAfter(s []int32, i int, k int32) bool {
	return !vpForall(i+1, len(s), func(j int) bool { return vpAt(s, j) != k })
}

func gen_H01_slices(r *rand.Rand) (HashSet[int32], []int32, int32, int) {
	return NewHashSet(vpInts(r)), vpInts(r), int32(r.Intn(5)), r.Intn(5)
}

// Operations with a slice of any length.
func contract_H01_slices(hs HashSet[int32], other []int32, k int32, op int) {
	vpRequires(hs != nil)
	hadK := hs.Contains(k)
	switch op {
	case 0:
		vpInvariant(func(i int) bool { return hs.Contains(k) == (hadK || vpIn(other, i, k)) })
		hs.UnionWith(other)
		vpEnsures("union", hs.Contains(k) == (hadK || vpIn(other, len(other), k)))
	case 1:
		vpInvariant(func(i int) bool { return hs.Contains(k) == (hadK && !vpIn(other, i, k)) })
		hs.ExceptWith(other)
		vpEnsures("difference", hs.Contains(k) == (hadK && !vpIn(other, len(other), k)))
	case 2:
		vpInvariant(func(i int, m HashSet[int32]) bool { return m.Contains(k) == vpIn(other, i, k) })
		vpEnsures("set of the elements", NewHashSet(other).Contains(k) == vpIn(other, len(other), k))
	case 3:
		vpInvariant(func(i int, m HashSet[int32]) bool { return m.Contains(k) == vpIn(other, i, k) })
		vpInvariant(func() bool { return hs.Contains(k) == (hadK && (vpIn(other, len(other), k) || !vpVisited(hs, k))) })
		vpInvariant(func() bool { return hs.Contains(k) == (hadK && !vpVisited(hs, k)) })
		vpInvariant(func(i int, s []int32) bool { return hs.Contains(k) == (hadK && (vpIn(other, len(other), k) || !vpIn(s, i, k))) })
		hs.IntersectWith(other)
		vpEnsures("intersection", hs.Contains(k) == (hadK && vpIn(other, len(other), k)))
	}
}

func gen_H01_sets(r *rand.Rand) (HashSet[int32], HashSet[int32], int32, int, int) {
	return NewHashSet(vpInts(r)), NewHashSet(vpInts(r)), int32(r.Intn(5)), r.Intn(5), r.Intn(5)
}

func vpChosen(v int32) bool {
	if vpConcrete() {
		return v%2 == 0
	}
	return vpPure[bool]("chosen", v)
}

// Operations over the elements of sets of any size.
func contract_H01_sets(hs, other HashSet[int32], k int32, j, op int) {
	vpRequires(hs != nil && other != nil && j >= 0)
	hadK := hs.Contains(k)
	n := len(hs)
	switch op {
	case 0:
		vpInvariant(func() bool { return hs.Contains(k) == (hadK && !vpVisited(hs, k)) })
		hs.Clear()
		vpEnsures("clear", !hs.Contains(k))
	case 1:
		vpInvariant(func() bool { return hs.Contains(k) == (hadK && (other.Contains(k) || !vpVisited(hs, k))) })
		vpInvariant(func() bool { return hs.Contains(k) == (hadK && !vpVisited(hs, k)) })
		vpInvariant(func(i int, s []int32) bool { return hs.Contains(k) == (hadK && (other.Contains(k) || !vpIn(s, i, k))) })
		hs.IntersectWithSet(other)
		vpEnsures("intersection", hs.Contains(k) == (hadK && other.Contains(k)))
	case 2:
		vpInvariant(func() bool { return hs.Contains(k) == (hadK && (!vpChosen(k) || !vpVisited(hs, k))) })
		vpInvariant(func(c int) bool { return c == n-len(hs) })
		vpInvariant(func(i int, s []int32) bool { return hs.Contains(k) == (hadK && (!vpChosen(k) || !vpIn(s, i, k))) })
		removed := hs.RemoveWhere(vpChosen)
		vpEnsures("conditional removal", hs.Contains(k) == (hadK && !vpChosen(k)))
		vpEnsures("count of elements removed", removed == n-len(hs))
	case 3:
		vpInvariant(func(s []int32) bool {
			i := vpVisitOf(hs, k)
			return !vpVisited(hs, k) || vpAt(s, i) == k
		})
		vpInvariant(func(i int) bool { return !vpVisited(hs, k) || (vpVisitOf(hs, k) >= 0 && vpVisitOf(hs, k) < i) })
		vpInvariant(func(s []int32) bool { return !vpVisited(hs, k) || (vpVisitOf(hs, k) >= 0 && vpVisitOf(hs, k) < len(s)) })
		nth := func(s []int32) bool {
			v := vpAt(s, j)
			return vpVisited(hs, v) && vpVisitOf(hs, v) == j && hs.Contains(v)
		}
		vpInvariant(func(s []int32, i int) bool { return j >= i || nth(s) })
		vpInvariant(func(s []int32) bool { return j >= len(s) || nth(s) })
		keys := hs.Keys()
		vpEnsures("as many keys as elements", len(keys) == len(hs))
		vpEnsures("set unchanged", hs.Contains(k) == hadK)
		if j < len(keys) {
			vpEnsures("keys are elements", hs.Contains(keys[j]))
		}
		if vpConcrete() {
			vpEnsures("every element is a key", !hadK || vpIn(keys, len(keys), k))
		} else {
			i := vpVisitOf(hs, k)
			vpEnsures("every element is a key", !hadK || (i < len(keys) && keys[i] == k))
		}
	}
}

// vpKey is the element whose place in the keys matters.
var vpKey int32

// sum_keys stands for Keys as shown by H01_sets.
func sum_keys(hs HashSet[int32]) []int32 {
	keys := vpAny[[]int32]()
	vpRequires(len(keys) == len(hs))
	vpRequires(vpForall(0, len(keys), func(i int) bool { return hs.Contains(vpAt(keys, i)) }))
	i := vpAny[int]()
	vpRequires(!hs.Contains(vpKey) || (i >= 0 && i < len(keys) && vpAt(keys, i) == vpKey))
	return keys
}

func gen_H01_pairs(r *rand.Rand) (HashSet[int32], HashSet[int32], int32, int) {
	return NewHashSet(vpInts(r)), NewHashSet(vpInts(r)), int32(r.Intn(5)), r.Intn(4)
}

// Operations with another set of any size.
//
//verif:use (github.com/sttp/goapi/sttp/hashset.HashSet[T]).Keys=sum_keys
func contract_H01_pairs(hs, other HashSet[int32], k int32, op int) {
	vpRequires(hs != nil && other != nil)
	vpKey = k
	hadK := hs.Contains(k)
	hasK := other.Contains(k)
	switch op {
	case 0:
		vpInvariant(func(i int, s []int32) bool { return hs.Contains(k) == (hadK || vpIn(s, i, k)) })
		vpInvariant(func() bool { return hs.Contains(k) == (hadK || (hasK && vpVisited(other, k))) })
		hs.UnionWithSet(other)
		vpEnsures("union", hs.Contains(k) == (hadK || hasK))
	case 1:
		vpInvariant(func(i int, s []int32) bool { return hs.Contains(k) == (hadK && !vpIn(s, i, k)) })
		vpInvariant(func() bool { return hs.Contains(k) == (hadK && !(hasK && vpVisited(other, k))) })
		hs.ExceptWithSet(other)
		vpEnsures("difference", hs.Contains(k) == (hadK && !hasK))
	case 2:
		vpInvariant(func(i int, s []int32) bool { return !hadK || !vpIn(s, i, k) })
		vpInvariant(func(i int, s []int32) bool { return !hadK || !vpAfter(s, i, k) })
		vpInvariant(func() bool { return !hadK || !hasK || !vpVisited(other, k) })
		vpInvariant(func() bool { return !hadK || !hasK || !vpVisited(hs, k) })
		if !hs.OverlapsSet(other) {
			vpEnsures("no overlap", !hadK || !hasK)
		}
	}
	vpEnsures("other set unchanged", other.Contains(k) == hasK)
}
