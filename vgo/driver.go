package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoDir = "/repo"

var verifDir = "/verif"

type Loaded struct {
	Prog    *ssa.Program
	Pkgs    []*packages.Package
	SSA     map[string]*ssa.Package
	Errs    []string
	modPath string
	mu      sync.Mutex
	built   map[*ssa.Package]bool
	mutable map[*ssa.Global]bool
	files   map[string]string // overlay path -> source path
}

func (l *Loaded) inRepo(p string) bool {
	return p == l.modPath || strings.HasPrefix(p, l.modPath+"/")
}

func (l *Loaded) build(p *ssa.Package) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if !l.built[p] {
		l.built[p] = true
		p.Build()
	}
}

func (l *Loaded) skipInit(fn *ssa.Function) bool {
	return fn.Name() == "init" && fn.Pkg != nil && strings.Contains(fn.Pkg.Pkg.Path(), "/parser")
}

// contractDirs maps contract directories to repository package directories.
func contractPkgs() []string {
	var r []string
	root := filepath.Join(verifDir, "contracts")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.IsDir() && p != root {
			m, _ := filepath.Glob(filepath.Join(p, "*.go"))
			if len(m) > 0 {
				rel, _ := filepath.Rel(root, p)
				r = append(r, rel)
			}
		}
		return nil
	})
	sort.Strings(r)
	return r
}

func pkgName(dir string) (string, error) {
	es, err := os.ReadDir(dir)
	if err != nil {
		return "", err
	}
	for _, e := range es {
		n := e.Name()
		if strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
			b, err := os.ReadFile(filepath.Join(dir, n))
			if err != nil {
				continue
			}
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "package ") {
					return strings.Fields(l)[1], nil
				}
			}
		}
	}
	return "", fmt.Errorf("no package in %s", dir)
}

// overlayFor collects the contract files of one property: files named after
// the property, plus common*.go of the same directory.
func overlayFor(prop string) (map[string][]byte, map[string]string, []string, error) {
	ov := map[string][]byte{}
	src := map[string]string{}
	var dirs []string
	rt, err := os.ReadFile(filepath.Join(verifDir, "contracts", "rt.go.txt"))
	if err != nil {
		return nil, nil, nil, err
	}
	for _, d := range contractPkgs() {
		fs, _ := filepath.Glob(filepath.Join(verifDir, "contracts", d, "*.go"))
		has := false
		for _, f := range fs {
			b := filepath.Base(f)
			if b == prop+".go" || strings.HasPrefix(b, prop+"_") {
				has = true
			}
		}
		if !has {
			continue
		}
		rd := filepath.Join(repoDir, d)
		name, err := pkgName(rd)
		if err != nil {
			return nil, nil, nil, err
		}
		dirs = append(dirs, d)
		for _, f := range fs {
			b := filepath.Base(f)
			if b == prop+".go" || strings.HasPrefix(b, prop+"_") || strings.HasPrefix(b, "common") && needs(prop, fs, b) {
				data, err := os.ReadFile(f)
				if err != nil {
					return nil, nil, nil, err
				}
				t := filepath.Join(rd, "zz_verif_"+b)
				ov[t] = data
				src[t] = f
			}
		}
		t := filepath.Join(rd, "zz_verif_rt.go")
		ov[t] = []byte(strings.Replace(string(rt), "package PKG", "package "+name, 1))
		src[t] = filepath.Join(verifDir, "contracts", "rt.go.txt")
	}
	return ov, src, dirs, nil
}

// needs: common.go is always included; common_x.go only when a file of the
// property says "//verif:with common_x.go".
func needs(prop string, fs []string, common string) bool {
	if common == "common.go" {
		return true
	}
	for _, f := range fs {
		b := filepath.Base(f)
		if b == prop+".go" || strings.HasPrefix(b, prop+"_") {
			d, _ := os.ReadFile(f)
			if strings.Contains(string(d), "//verif:with "+common) {
				return true
			}
		}
	}
	return false
}

func load(dirs []string, ov map[string][]byte) (*Loaded, error) {
	l := &Loaded{SSA: map[string]*ssa.Package{}, built: map[*ssa.Package]bool{}, mutable: map[*ssa.Global]bool{}}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: repoDir, Overlay: ov, Fset: token.NewFileSet()}
	var pats []string
	for _, d := range dirs {
		pats = append(pats, "./"+d)
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			l.Errs = append(l.Errs, e.Error())
		}
	})
	l.Pkgs = pkgs
	for _, p := range pkgs {
		if p.Module != nil {
			l.modPath = p.Module.Path
		}
	}
	if len(l.Errs) > 0 {
		return l, nil
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	l.Prog = prog
	for _, p := range prog.AllPackages() {
		l.SSA[p.Pkg.Path()] = p
		if l.inRepo(p.Pkg.Path()) || inlinePkgs[p.Pkg.Path()] {
			l.built[p] = true
			p.Build()
		}
	}
	l.scanGlobals()
	return l, nil
}

// onlyRead tells whether nothing is written through the pointer v and it goes
// nowhere else.
func onlyRead(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch t := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Phi:
			if !onlyRead(t.(ssa.Value), seen) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// scanGlobals finds package variables written outside initialisation.
func (l *Loaded) scanGlobals() {
	for fn := range ssautil.AllFunctions(l.Prog) {
		if fn.Pkg == nil || !l.inRepo(fn.Pkg.Pkg.Path()) || fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops [8]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch t := in.(type) {
					case *ssa.UnOp:
					case *ssa.FieldAddr, *ssa.IndexAddr:
						// read of a component unless it is stored through
						for _, r := range *in.(ssa.Value).Referrers() {
							if s, ok := r.(*ssa.Store); ok && s.Addr == in.(ssa.Value) {
								l.mutable[g] = true
							}
						}
					case *ssa.Store:
						if t.Addr == *op {
							l.mutable[g] = true
						}
					case *ssa.Phi:
						if !onlyRead(t, map[ssa.Value]bool{}) {
							l.mutable[g] = true
						}
					default:
						_ = t
						l.mutable[g] = true
					}
				}
			}
		}
	}
}

type Harness struct {
	Name string
	Fn   *ssa.Function
	Pkg  string // directory
	Dirs map[string][]string
}

// directives returns the "//verif:name argument" lines of a function's comment.
func directives(fn *ssa.Function) map[string][]string {
	dirs := map[string][]string{}
	if fd, ok := fn.Syntax().(*ast.FuncDecl); ok && fd.Doc != nil {
		for _, c := range fd.Doc.List {
			t := strings.TrimPrefix(c.Text, "//verif:")
			if t != c.Text {
				f := strings.SplitN(t, " ", 2)
				arg := ""
				if len(f) > 1 {
					arg = strings.TrimSpace(f[1])
				}
				dirs[f[0]] = append(dirs[f[0]], arg)
			}
		}
	}
	return dirs
}

func (l *Loaded) harnesses(prop string) []*Harness {
	var r []*Harness
	for _, p := range l.Pkgs {
		sp := l.SSA[p.PkgPath]
		if sp == nil {
			continue
		}
		for n, m := range sp.Members {
			fn, ok := m.(*ssa.Function)
			if !ok || !strings.HasPrefix(n, "contract_"+prop+"_") {
				continue
			}
			rel, _ := filepath.Rel(repoDir, filepath.Dir(l.Prog.Fset.Position(fn.Pos()).Filename))
			h := &Harness{Name: strings.TrimPrefix(n, "contract_"), Fn: fn, Pkg: rel, Dirs: directives(fn)}
			// a summary may say which function it stands for in every harness
			// of its package; the harness's own choice goes first
			for n, m := range sp.Members {
				if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "sum_") {
					for _, target := range directives(f)["for"] {
						own := false
						for _, u := range h.Dirs["use"] {
							own = own || strings.HasPrefix(u, target+"=")
						}
						if !own {
							h.Dirs["use"] = append(h.Dirs["use"], target+"="+n)
						}
					}
				}
			}
			sort.Strings(h.Dirs["use"])
			r = append(r, h)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name < r[j].Name })
	return r
}

type HResult struct {
	H        *Harness
	Obls     []*Obligation
	Err      string // construct outside the subset, or engine limit
	Counts   map[string]int
	Solver   time.Duration
	Queries  int
	ByBack   map[string]int
	Wall     time.Duration
	Trusted  []string
	Assume   []string
	Inlined  []string
	Loops    []*LoopReport
	Returned int
}

func (r *HResult) OK() bool {
	if r.Err != "" {
		return false
	}
	for _, o := range r.Obls {
		if o.Status != "discharged" {
			return false
		}
	}
	return true
}

func (l *Loaded) verify(h *Harness, limit time.Duration) (res *HResult) {
	t0 := time.Now()
	x := NewExec(l)
	defer x.S.Close()
	defer x.S.dumpProfile()
	x.hname = h.Name
	_, x.syncGo = h.Dirs["syncgo"]
	x.Deadline = t0.Add(limit)
	x.S.abort = t0.Add(limit)
	res = &HResult{H: h, Counts: x.counts}
	defer func() {
		if e := recover(); e != nil {
			switch u := e.(type) {
			case unsup:
				res.Err = u.msg
			case noMerge:
				res.Err = "unmergeable values"
			case cutReq:
				res.Err = "loop cut outside its loop: " + u.header.Parent().String()
			default:
				if os.Getenv("VGO_PANIC") != "" {
					panic(e)
				}
				res.Err = fmt.Sprintf("engine: %v", e)
			}
			if len(x.fnStack) > 0 {
				var s []string
				for _, f := range x.fnStack {
					s = append(s, f.Name())
				}
				res.Err += " [in " + strings.Join(s, " > ") + "]"
			}
		}
		for _, n := range x.oblOrder {
			res.Obls = append(res.Obls, x.Obls[n])
		}
		res.Solver = x.S.Time
		res.Queries = x.S.Queries
		res.ByBack = x.S.ByBack
		res.Wall = time.Since(t0)
		res.Trusted = sortedKeys(x.Trusted)
		res.Assume = sortedKeys(x.Assume)
		for f := range x.Inlined {
			n := f.RelString(nil)
			p := f.Pkg
			if p == nil && f.Origin() != nil {
				p = f.Origin().Pkg
			}
			if p != nil && l.inRepo(p.Pkg.Path()) {
				pos := l.Prog.Fset.Position(f.Pos())
				if strings.HasPrefix(filepath.Base(pos.Filename), "zz_verif_") || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
					continue
				}
				res.Inlined = append(res.Inlined, n)
			}
		}
		sort.Strings(res.Inlined)
		var ks []string
		for k := range x.loopRep {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			res.Loops = append(res.Loops, x.loopRep[k])
		}
	}()
	x.initGlobals(h.Fn.Pkg)
	x.Trusted = map[string]bool{}
	x.Assume = map[string]bool{}
	x.Inlined = map[*ssa.Function]bool{}
	for k := range x.counts {
		delete(x.counts, k)
	}
	for _, u := range h.Dirs["use"] {
		// use full.name=summary
		p := strings.SplitN(u, "=", 2)
		s := h.Fn.Pkg.Func(strings.TrimSpace(p[1]))
		if s == nil {
			res.Err = "summary not found: " + p[1]
			return
		}
		x.summaries[strings.TrimSpace(p[0])] = s
	}
	st := &State{heap: map[int]*Obj{}, base: x.global, regions: map[string][]regionEnt{}, ghost: map[string]Val{}, escaped: map[string][]int{}}
	if _, lazy := h.Dirs["lazygo"]; lazy {
		x.pending = x.newObj(st, types.Typ[types.Int], &ChanObj{}, "goroutines")
	}
	var args []Val
	for _, p := range h.Fn.Params {
		v := x.freshVal(st, p.Name(), p.Type(), 0)
		x.inputs = append(x.inputs, Input{p.Name(), p.Type(), v})
		args = append(args, v)
	}
	x.inputArr = map[int]*SymArr{}
	for id, o := range st.heap {
		if a, ok := o.V.(*SymArr); ok {
			x.inputArr[id] = a
		}
	}
	outs := x.Call(st, h.Fn, args, nil)
	for _, o := range outs {
		if o.p == nil {
			res.Returned++
			continue
		}
		name := h.Name + "/no-panic " + stripLine(o.p.where) + " " + o.p.kind
		ob := x.record(name, "no-panic", o.p.where)
		ob.Reach = true
		x.counts["checks"]++
		ts := o.st.pcTerms()
		switch x.S.Check(ts, x.oblMS, true, nil) {
		case Unsat:
			x.counts["discharged"]++
		case Sat:
			x.counts["failed"]++
			if ob.Status != "failed" {
				ob.Status = "failed"
				ob.Detail = o.p.msg + " at " + o.p.where
				ob.Model = x.model(o.st, ts)
				if os.Getenv("VGO_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "PANIC path:", o.p.msg, o.p.where)
					for _, t := range ts {
						fmt.Fprintln(os.Stderr, "    pc:", x.C.show(t, 10))
					}
				}
			}
		default:
			x.counts["unknown"]++
			if ob.Status == "discharged" {
				ob.Status = "unknown"
				ob.Detail = "not shown unreachable: " + o.p.msg + " at " + o.p.where
			}
		}
	}
	if len(x.oblOrder) == 0 && res.Returned > 0 {
		// nothing on the way can fail
		x.record(h.Name+"/returns", "no-panic", "").Reach = true
	}
	// every named postcondition must have been reached
	if len(x.oblOrder) == 0 {
		res.Err = "no obligation was generated (contradictory requirements?)"
	}
	for _, n := range x.oblOrder {
		if o := x.Obls[n]; o.Status == "discharged" && !o.Reach {
			o.Status = "unknown"
			o.Detail = "vacuous: the postcondition is never reached under the requirements"
		}
	}
	return
}

func stripLine(w string) string {
	if i := strings.Index(w, " ("); i >= 0 {
		return w[:i]
	}
	return w
}

func (x *Exec) initGlobals(pkg *ssa.Package) {
	x.lenient = true
	defer func() { x.lenient = false }()
	seen := map[*ssa.Package]bool{}
	var visit func(p *ssa.Package)
	st := x.global
	visit = func(p *ssa.Package) {
		if seen[p] || !x.L.inRepo(p.Pkg.Path()) || strings.Contains(p.Pkg.Path(), "/parser") {
			return
		}
		seen[p] = true
		for _, i := range p.Pkg.Imports() {
			if sp := x.L.SSA[i.Path()]; sp != nil {
				visit(sp)
			}
		}
		f := p.Func("init")
		if f == nil || f.Blocks == nil {
			return
		}
		x.runInit(st, f)
	}
	visit(pkg)
	for g := range x.L.mutable {
		if !seen[g.Pkg] || strings.HasPrefix(g.Name(), "init$") {
			continue
		}
		et := g.Type().Underlying().(*types.Pointer).Elem()
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(unsup); !ok {
						panic(e)
					}
				}
			}()
			id := x.globalObj(st, g)
			v := x.freshVal(st, "var!"+g.Name(), et, 0)
			st.heap[id].V = v
		}()
	}
}

// runInit executes package initialisation instruction by instruction; what is
// outside the subset leaves the variable unknown.
func (x *Exec) runInit(st *State, f *ssa.Function) {
	info := x.info(f)
	fr := &Frame{fn: f, info: info, env: make([]Val, info.n), visits: map[*ssa.BasicBlock]int{}}
	blk := f.Blocks[0]
	// skip the guard
	var prev *ssa.BasicBlock
	steps := 0
	for blk != nil && steps < 100000 {
		next := (*ssa.BasicBlock)(nil)
		for _, in := range blk.Instrs {
			steps++
			switch t := in.(type) {
			case *ssa.If:
				if c, ok := fr.env[info.idx[t.Cond]].(*Term); ok {
					if v, isC := c.BoolConst(); isC {
						if v {
							next = blk.Succs[0]
						} else {
							next = blk.Succs[1]
						}
						break
					}
				}
				next = blk.Succs[1]
			case *ssa.Jump:
				next = blk.Succs[0]
			case *ssa.Return:
				return
			case *ssa.Phi:
				x.evalPhis(st, fr, blk, prev)
			default:
				x.initStep(st, fr, in)
			}
		}
		prev = blk
		blk = next
	}
}

func (x *Exec) initStep(st *State, fr *Frame, in ssa.Instruction) {
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case unsup, cutReq, noMerge:
				x.depth = 0
				x.fnStack = nil
				x.dry, x.pure = 0, 0
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						x.havocGlobal(st, g)
					}
				}
				return
			}
			panic(e)
		}
	}()
	if c, ok := in.(*ssa.Call); ok {
		if f, ok := c.Call.Value.(*ssa.Function); ok && f.Name() == "init" && f.Synthetic != "" {
			return // package initialisers run separately
		}
	}
	outs := x.step(st, fr, in)
	if len(outs) == 1 && outs[0].p == nil {
		if outs[0].st != st {
			// adopt the resulting heap
			for k, v := range outs[0].st.heap {
				st.heap[k] = v
			}
			st.regions = outs[0].st.regions
			st.escaped = outs[0].st.escaped
		}
		if v, ok := in.(ssa.Value); ok {
			x.setReg(fr, v, outs[0].ret)
		}
		return
	}
	panic(unsupported("init branches"))
}

func (x *Exec) havocGlobal(st *State, g *ssa.Global) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsup); !ok {
				panic(e)
			}
		}
	}()
	id := x.globalObj(st, g)
	et := g.Type().Underlying().(*types.Pointer).Elem()
	st.heap[id].V = x.freshVal(st, "glob!"+g.Name(), et, 0)
}
