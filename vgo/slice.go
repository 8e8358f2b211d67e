package main

import (
	"fmt"
	"os"
	"sort"
	"time"
)

// symbols of a term: variables, arrays and uninterpreted functions.
func (s *Solver) syms(t *Term) []int32 {
	if r, ok := s.symMemo[t.ID]; ok {
		return r
	}
	set := map[int32]bool{}
	add := func(n string) {
		id, ok := s.symID[n]
		if !ok {
			id = int32(len(s.symID))
			s.symID[n] = id
		}
		set[id] = true
	}
	switch t.Op {
	case OVar, OApp, OABase, OALam:
		add(t.Name)
	}
	for _, a := range t.Args {
		for _, i := range s.syms(a) {
			set[i] = true
		}
	}
	var r []int32
	for i := range set {
		r = append(r, i)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	s.symMemo[t.ID] = r
	return r
}

// relevant keeps the path conditions connected to the question by symbols.
func (s *Solver) relevant(pc []*Term, q *Term) []*Term {
	if s.symMemo == nil {
		s.symMemo = map[int][]int32{}
		s.symID = map[string]int32{}
	}
	have := map[int32]bool{}
	for _, i := range s.syms(q) {
		have[i] = true
	}
	used := make([]bool, len(pc))
	n := 0
	for changed := true; changed; {
		changed = false
		for i, p := range pc {
			if used[i] {
				continue
			}
			hit := false
			sy := s.syms(p)
			for _, v := range sy {
				if have[v] {
					hit = true
					break
				}
			}
			if hit || len(sy) == 0 {
				used[i] = true
				n++
				changed = true
				for _, v := range sy {
					have[v] = true
				}
			}
		}
	}
	if n == len(pc) {
		return append(pc[:len(pc):len(pc)], q)
	}
	r := make([]*Term, 0, n+1)
	for i, p := range pc {
		if used[i] {
			r = append(r, p)
		}
	}
	return append(r, q)
}

type profEnt struct {
	n int
	d time.Duration
}

var prof = os.Getenv("VGO_PROF") != ""

func (s *Solver) note(d time.Duration) {
	if !prof {
		return
	}
	if s.profile == nil {
		s.profile = map[string]*profEnt{}
	}
	e := s.profile[s.Tag]
	if e == nil {
		e = &profEnt{}
		s.profile[s.Tag] = e
	}
	e.n++
	e.d += d
}

func (s *Solver) dumpProfile() {
	if !prof {
		return
	}
	var ks []string
	for k := range s.profile {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return s.profile[ks[i]].d > s.profile[ks[j]].d })
	for i, k := range ks {
		if i > 25 {
			break
		}
		fmt.Fprintf(os.Stderr, "   %8v %5d  %s\n", s.profile[k].d.Round(time.Millisecond), s.profile[k].n, k)
	}
}
