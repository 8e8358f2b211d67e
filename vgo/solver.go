package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

const (
	z3Main = "/usr/local/bin/z3-new"
	z3Alt  = "/usr/bin/z3"
	cvcAlt = "/usr/bin/cvc5"
)

// Solver drives one incremental z3 process. Terms are sent once as named
// definitions; each query is a push/assert/check/pop.
type Solver struct {
	c        *Ctx
	cmd      *exec.Cmd
	in       *bufio.Writer
	out      *bufio.Reader
	lines    chan string
	defined  map[int]bool
	declared map[string]bool
	axDone   int
	script   bytes.Buffer
	cache    map[string]Result
	Time     time.Duration
	Queries  int
	ByBack   map[string]int
	base     []*Term // asserted permanently
	baseIDs  map[int]bool
	dead     bool
	fallback time.Duration
	abort    time.Time
	symMemo  map[int][]int32
	symID    map[string]int32
	Tag      string
	profile  map[string]*profEnt
	wordMiss int
}

func NewSolver(c *Ctx) *Solver {
	s := &Solver{c: c, cache: map[string]Result{}, ByBack: map[string]int{}, fallback: 40 * time.Second}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(z3Main, "-in", "-smt2")
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.lines = make(chan string, 64)
	go func(rd *bufio.Reader, ch chan string) {
		for {
			l, err := rd.ReadString('\n')
			if l != "" {
				ch <- strings.TrimRight(l, "\n")
			}
			if err != nil {
				close(ch)
				return
			}
		}
	}(s.out, s.lines)
	s.defined = map[int]bool{}
	s.declared = map[string]bool{}
	s.axDone = 0
	s.script.Reset()
	s.raw("(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :smt.random_seed 1)\n")
}

func (s *Solver) raw(t string) { io.WriteString(s.in, t) }

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

type emitter struct {
	c        *Ctx
	defined  map[int]bool
	declared map[string]bool
	w        func(string)
	cut      map[int]bool // terms replaced by an arbitrary value of their sort
}

func (e *emitter) sort(s *Sort) {
	if s.Kind == SOpaque && !e.declared["sort:"+s.Name] {
		e.declared["sort:"+s.Name] = true
		e.w("(declare-sort " + s.Name + " 0)\n")
	}
}

func (e *emitter) decl(t *Term) {
	switch t.Op {
	case OVar:
		if t.bound {
			return
		}
		k := "v:" + t.Name
		if !e.declared[k] {
			e.declared[k] = true
			e.sort(t.Sort)
			e.w("(declare-fun " + smtName(t.Name) + " () " + t.Sort.String() + ")\n")
		}
	case OApp:
		k := "f:" + t.Name
		if !e.declared[k] {
			e.declared[k] = true
			d := e.c.funs[t.Name]
			var as []string
			for _, a := range d.Args {
				e.sort(a)
				as = append(as, a.String())
			}
			e.sort(d.Ret)
			e.w("(declare-fun " + smtName(t.Name) + " (" + strings.Join(as, " ") + ") " + d.Ret.String() + ")\n")
		}
	}
}

// ref returns text that denotes t, emitting definitions on demand.
func (e *emitter) ref(t *Term) string {
	switch t.Op {
	case OConst:
		return constText(t)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar:
		e.decl(t)
		return smtName(t.Name)
	}
	if e.cut[t.ID] {
		n := fmt.Sprintf("cut!%d", t.ID)
		if !e.declared[n] {
			e.declared[n] = true
			e.sort(t.Sort)
			e.w("(declare-fun " + n + " () " + t.Sort.String() + ")\n")
		}
		return n
	}
	if t.bound {
		e.decl(t)
		args := make([]string, len(t.Args))
		for i, a := range t.Args {
			args[i] = e.ref(a)
		}
		return e.c.node(t, args)
	}
	name := fmt.Sprintf("t%d", t.ID)
	if e.defined[t.ID] {
		return name
	}
	// explicit stack to keep recursion shallow on deep terms
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.Args) {
			a := f.t.Args[f.i]
			f.i++
			if !a.bound && len(a.Args) > 0 && !e.defined[a.ID] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if e.defined[x.ID] {
			continue
		}
		e.decl(x)
		args := make([]string, len(x.Args))
		for i, a := range x.Args {
			if !a.bound && len(a.Args) > 0 {
				args[i] = fmt.Sprintf("t%d", a.ID)
			} else {
				args[i] = e.ref(a)
			}
		}
		body := e.c.node(x, args)
		e.defined[x.ID] = true
		e.w(fmt.Sprintf("(define-fun t%d () %s %s)\n", x.ID, x.Sort, body))
	}
	return name
}

func (s *Solver) emitter() *emitter {
	return &emitter{c: s.c, defined: s.defined, declared: s.declared, w: s.raw}
}

func key(ts []*Term) string {
	ids := make([]int, len(ts))
	for i, t := range ts {
		ids[i] = t.ID
	}
	sort.Ints(ids)
	var b strings.Builder
	last := -1
	for _, i := range ids {
		if i != last {
			fmt.Fprintf(&b, "%d,", i)
		}
		last = i
	}
	return b.String()
}

func (s *Solver) readLine(d time.Duration) (string, bool) {
	select {
	case l, ok := <-s.lines:
		return l, ok
	case <-time.After(d):
		return "", false
	}
}

func (s *Solver) pushAxioms() {
	e := s.emitter()
	for s.axDone < len(s.c.Axioms) {
		a := s.c.Axioms[s.axDone]
		s.axDone++
		r := e.ref(a)
		s.raw("(assert " + r + ")\n")
	}
}

// Check decides satisfiability of the conjunction. When get is non-nil and the
// answer is sat, it is called with a function evaluating terms in the model.
func (s *Solver) Check(ts []*Term, timeout time.Duration, full bool, get func(eval func(*Term) string)) Result {
	for _, t := range ts {
		if t == s.c.False {
			return Unsat
		}
	}
	k := key(ts)
	if get == nil {
		if r, ok := s.cache[k]; ok && (r != Unknown || !full) {
			return r
		}
	}
	if !s.abort.IsZero() && time.Now().After(s.abort) {
		return Unknown
	}
	t0 := time.Now()
	s.Queries++
	first := timeout
	if first > firstLimit && s.wordMiss < 6 {
		first = firstLimit
	}
	r := s.query(ts, first, get)
	if r == Unknown && first < timeout {
		if s.wordUnsat(ts) {
			s.Time += time.Since(t0)
			s.note(time.Since(t0))
			s.ByBack[wordBackEnd]++
			s.cache[k] = Unsat
			return Unsat
		}
		r = s.query(ts, timeout, get)
	}
	if r == Unknown && full {
		r = s.portfolio(ts)
	} else if r != Unknown {
		s.ByBack["z3-5.x incremental"]++
	}
	s.Time += time.Since(t0)
	s.note(time.Since(t0))
	if d := time.Since(t0); d > slowLimit && os.Getenv("VGO_SLOW") != "" {
		fmt.Fprintf(os.Stderr, "slow query %v %v\n", d, r)
		if os.Getenv("VGO_SLOW") == "2" {
			os.WriteFile(fmt.Sprintf("/tmp/slow%d.smt2", s.Queries), []byte(s.standalone(ts)), 0644)
		}
	}
	s.cache[k] = r
	return r
}

const (
	firstLimit  = 300 * time.Millisecond
	wordBackEnd = "cvc5 (bit vectors as integers)"
)

// wordUnsat reports whether cvc5, reading bit vectors as integers, refutes the
// conjunction. It is no longer asked after it could not help several times.
func (s *Solver) wordUnsat(ts []*Term) bool {
	f, err := os.CreateTemp("", "vgo*.smt2")
	if err != nil {
		return false
	}
	defer os.Remove(f.Name())
	f.WriteString(s.standalone(ts))
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
	defer cancel()
	o, _ := exec.CommandContext(ctx, cvcAlt, "--lang=smt2", "--solve-bv-as-int=sum", "--tlimit=1500", f.Name()).Output()
	if strings.HasPrefix(strings.TrimSpace(string(o)), "unsat") {
		s.wordMiss = 0
		return true
	}
	s.wordMiss++
	return false
}

func (s *Solver) query(ts []*Term, timeout time.Duration, get func(eval func(*Term) string)) Result {
	e := s.emitter()
	var refs []string
	seen := map[int]bool{}
	for _, t := range ts {
		if t == s.c.True || seen[t.ID] {
			continue
		}
		seen[t.ID] = true
		refs = append(refs, e.ref(t))
	}
	s.pushAxioms()
	s.raw("(push 1)\n")
	for _, r := range refs {
		s.raw("(assert " + r + ")\n")
	}
	s.raw(fmt.Sprintf("(set-option :timeout %d)\n(check-sat)\n", timeout.Milliseconds()))
	if err := s.in.Flush(); err != nil {
		s.restart()
		return Unknown
	}
	l, ok := s.readLine(timeout + 5*time.Second)
	if !ok {
		s.restart()
		return Unknown
	}
	r := Unknown
	switch l {
	case "sat":
		r = Sat
	case "unsat":
		r = Unsat
	case "unknown", "timeout":
	default:
		fmt.Fprintln(os.Stderr, "solver said:", l)
		s.restart()
		return Unknown
	}
	if r == Sat && get != nil {
		get(func(t *Term) string {
			x := e.ref(t)
			s.raw("(get-value (" + x + "))\n(echo \"--end\")\n")
			s.in.Flush()
			var b strings.Builder
			for {
				l, ok := s.readLine(10 * time.Second)
				if !ok || strings.Contains(l, "--end") {
					break
				}
				b.WriteString(l)
			}
			txt := b.String()
			// ((x value))
			txt = strings.TrimSpace(txt)
			if strings.HasPrefix(txt, "((") && strings.HasSuffix(txt, "))") {
				txt = txt[2 : len(txt)-2]
				if strings.HasPrefix(txt, x) {
					return strings.TrimSpace(txt[len(x):])
				}
				if i := strings.LastIndex(txt, " "); i >= 0 {
					return txt[i+1:]
				}
			}
			return ""
		})
	}
	s.raw("(pop 1)\n")
	return r
}

// cutAt abstracts every term whose least depth below the question is d.
func cutAt(ts []*Term, d int) map[int]bool {
	depth := map[int]int{}
	cur := []*Term{}
	for _, t := range ts {
		if _, ok := depth[t.ID]; !ok {
			depth[t.ID] = 0
			cur = append(cur, t)
		}
	}
	for l := 1; l <= d; l++ {
		var next []*Term
		for _, t := range cur {
			for _, a := range t.Args {
				if _, ok := depth[a.ID]; !ok {
					depth[a.ID] = l
					next = append(next, a)
				}
			}
		}
		cur = next
	}
	r := map[int]bool{}
	for _, t := range cur {
		if t.bound || t.Sort == nil || t.Sort.Kind == SArr || len(t.Args) == 0 || t.Op == OForall {
			continue
		}
		r[t.ID] = true
	}
	return r
}

var slowLimit = func() time.Duration {
	if os.Getenv("VGO_SLOW") == "2" {
		return 300 * time.Millisecond
	}
	return 3 * time.Second
}()

// standalone is a self-contained form of a query.
func (s *Solver) standalone(ts []*Term) string {
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	e := &emitter{c: s.c, defined: map[int]bool{}, declared: map[string]bool{}, w: func(x string) { b.WriteString(x) }}
	for _, t := range append(append([]*Term{}, s.c.Axioms...), ts...) {
		r := e.ref(t)
		b.WriteString("(assert " + r + ")\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

func (s *Solver) portfolio(ts []*Term) Result {
	write := func(cut map[int]bool) string {
		var b strings.Builder
		b.WriteString("(set-logic ALL)\n")
		e := &emitter{c: s.c, defined: map[int]bool{}, declared: map[string]bool{}, w: func(x string) { b.WriteString(x) }, cut: cut}
		if cut == nil {
			for _, a := range s.c.Axioms {
				r := e.ref(a)
				b.WriteString("(assert " + r + ")\n")
			}
		}
		for _, t := range ts {
			r := e.ref(t)
			b.WriteString("(assert " + r + ")\n")
		}
		b.WriteString("(check-sat)\n")
		f, err := os.CreateTemp("", "vgo*.smt2")
		if err != nil {
			return ""
		}
		f.WriteString(b.String())
		f.Close()
		return f.Name()
	}
	full := write(nil)
	if os.Getenv("VGO_KEEP") != "" {
		fmt.Fprintln(os.Stderr, "kept", full)
	} else {
		defer os.Remove(full)
	}
	ctx, cancel := context.WithTimeout(context.Background(), s.fallback)
	defer cancel()
	type job struct {
		who string
		cmd []string
		cut bool
	}
	jobs := []job{
		{"z3-5.x", []string{z3Main, "-smt2", full}, false},
		{"cvc5", []string{cvcAlt, "--lang=smt2", full}, false},
		{wordBackEnd, []string{cvcAlt, "--lang=smt2", "--solve-bv-as-int=sum", full}, true},
		{"z3-4.8", []string{z3Alt, "-smt2", full}, false},
	}
	for _, d := range []int{6, 10, 15, 22, 32} {
		c := cutAt(ts, d)
		if len(c) == 0 {
			break
		}
		f := write(c)
		defer os.Remove(f)
		jobs = append(jobs, job{fmt.Sprintf("z3-5.x (terms below depth %d abstracted)", d), []string{z3Main, "-T:10", "-smt2", f}, true})
	}
	if txt, ok := s.intScript(ts); ok {
		f, err := os.CreateTemp("", "vgo*.smt2")
		if err == nil {
			f.WriteString(txt)
			f.Close()
			if os.Getenv("VGO_KEEP") != "" {
				fmt.Fprintln(os.Stderr, "kept", f.Name())
			} else {
				defer os.Remove(f.Name())
			}
			jobs = append(jobs, job{"z3-5.x (integers)", []string{z3Main, "-T:30", "-smt2", f.Name()}, true},
				job{"cvc5 (integers)", []string{cvcAlt, "--lang=smt2", "--tlimit=30000", f.Name()}, true})
		}
	}
	type ans struct {
		who string
		r   Result
	}
	ch := make(chan ans, len(jobs))
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func(j job) {
			defer wg.Done()
			o, _ := exec.CommandContext(ctx, j.cmd[0], j.cmd[1:]...).CombinedOutput()
			t := strings.TrimSpace(string(o))
			switch {
			case strings.HasPrefix(t, "unsat"):
				ch <- ans{j.who, Unsat}
			case strings.HasPrefix(t, "sat") && !j.cut:
				ch <- ans{j.who, Sat}
			default:
				ch <- ans{j.who, Unknown}
			}
		}(j)
	}
	res := Unknown
	for range jobs {
		a := <-ch
		if a.r != Unknown {
			res = a.r
			s.ByBack[a.who]++
			break
		}
	}
	cancel()
	wg.Wait()
	return res
}
