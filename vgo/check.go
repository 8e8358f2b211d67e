package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type finding struct {
	prop, key, text string
}

// knownFindings reads lines "known: property=ID obligation=<name> :: text".
func knownFindings(prop string) []finding {
	b, _ := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	var r []finding
	for _, l := range strings.Split(string(b), "\n") {
		pre := "known: property=" + prop + " obligation="
		if strings.HasPrefix(l, pre) {
			p := strings.SplitN(strings.TrimPrefix(l, pre), " :: ", 2)
			f := finding{prop: prop, key: strings.TrimSpace(p[0])}
			if len(p) > 1 {
				f.text = p[1]
			}
			r = append(r, f)
		}
	}
	return r
}

type violation struct {
	h      *Harness
	name   string
	detail string
	model  map[string]interface{}
}

type replayOut struct {
	Failed   bool
	Failures []string
	Panic    string
	Input    []string
	JSON     map[string]interface{}
	Tried    int
	Skipped  int
	Source   string
}

func seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// writeOverlay puts the overlay and the replay test in dir for go test.
func writeOverlay(dir, prop, hpkg string, ov map[string][]byte, hs []*Harness) (string, error) {
	repl := map[string]string{}
	n := 0
	put := func(target string, data []byte) error {
		n++
		f := filepath.Join(dir, fmt.Sprintf("f%d_%s", n, filepath.Base(target)))
		if err := os.WriteFile(f, data, 0644); err != nil {
			return err
		}
		repl[target] = f
		return nil
	}
	gens := map[string]bool{}
	for t, d := range ov {
		if err := put(t, d); err != nil {
			return "", err
		}
		if filepath.Dir(t) == filepath.Join(repoDir, hpkg) {
			for _, l := range strings.Split(string(d), "\n") {
				if strings.HasPrefix(l, "func gen_") {
					gens[strings.SplitN(strings.TrimPrefix(l, "func gen_"), "(", 2)[0]] = true
				}
			}
		}
	}
	tpl, err := os.ReadFile(filepath.Join(verifDir, "contracts", "replay.go.txt"))
	if err != nil {
		return "", err
	}
	name, err := pkgName(filepath.Join(repoDir, hpkg))
	if err != nil {
		return "", err
	}
	var hl, gl []string
	for _, h := range hs {
		if h.Pkg == hpkg {
			hl = append(hl, fmt.Sprintf("\t%q: contract_%s,", h.Name, h.Name))
			if gens[h.Name] {
				gl = append(gl, fmt.Sprintf("\t%q: gen_%s,", h.Name, h.Name))
			}
		}
	}
	s := string(tpl)
	extraI, extraG := "", ""
	if hpkg == "sttp/data" {
		extraI = "\t\"github.com/shopspring/decimal\""
		extraG = "\tif _, ok := v.Interface().(decimal.Decimal); ok {\n\t\tv.Set(reflect.ValueOf(decimal.New(int64(vpInt(r, 64)), int32(r.Intn(7)-3))))\n\t\treturn true\n\t}"
	}
	s = strings.Replace(s, "package PKG", "package "+name, 1)
	s = strings.Replace(s, "EXTRAIMPORT", extraI, 1)
	s = strings.Replace(s, "EXTRAGEN", extraG, 1)
	s = strings.Replace(s, "HARNESSES", strings.Join(hl, "\n"), 1)
	s = strings.Replace(s, "GENERATORS", strings.Join(gl, "\n"), 1)
	if err := put(filepath.Join(repoDir, hpkg, "zz_verif_replay_test.go"), []byte(s)); err != nil {
		return "", err
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	of := filepath.Join(dir, "overlay.json")
	return of, os.WriteFile(of, j, 0644)
}

type replayer struct {
	dir  string
	bins map[string]string
	ov   map[string][]byte
	hs   []*Harness
	prop string
	log  bytes.Buffer
}

func (r *replayer) bin(pkg string) (string, error) {
	if b, ok := r.bins[pkg]; ok {
		if b == "" {
			return "", fmt.Errorf("replay test does not build")
		}
		return b, nil
	}
	r.bins[pkg] = ""
	d := filepath.Join(r.dir, strings.ReplaceAll(pkg, "/", "_"))
	if err := os.MkdirAll(d, 0755); err != nil {
		return "", err
	}
	of, err := writeOverlay(d, r.prop, pkg, r.ov, r.hs)
	if err != nil {
		return "", err
	}
	out := filepath.Join(d, "replay.test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", of, "-o", out, "./"+pkg)
	cmd.Dir = repoDir
	b, err := cmd.CombinedOutput()
	if err != nil {
		r.log.Write(b)
		return "", fmt.Errorf("%v: %s", err, b)
	}
	r.bins[pkg] = out
	return out, nil
}

func (r *replayer) run(h *Harness, mode string, input map[string]interface{}, secs float64) (*replayOut, error) {
	bin, err := r.bin(h.Pkg)
	if err != nil {
		return nil, err
	}
	var params []string
	for _, p := range h.Fn.Params {
		params = append(params, p.Name())
	}
	return runReplay(bin, r.dir, map[string]interface{}{"Mode": mode, "Harness": h.Name, "Params": params, "Input": input, "Seed": seed(), "Seconds": secs}, h.Pkg)
}

func runReplay(bin, dir string, job map[string]interface{}, pkg string) (*replayOut, error) {
	jf, of := filepath.Join(dir, "job.json"), filepath.Join(dir, "out.json")
	j, _ := json.Marshal(job)
	if err := os.WriteFile(jf, j, 0644); err != nil {
		return nil, err
	}
	os.Remove(of)
	scratch := filepath.Join(dir, "cwd")
	os.MkdirAll(scratch, 0755)
	secs, _ := job["Seconds"].(float64)
	cmd := exec.Command("timeout", "-k", "2", strconv.Itoa(int(secs)+30), bin, "-test.run", "^TestVerifReplay$", "-test.timeout", strconv.Itoa(int(secs)+25)+"s")
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(), "VERIF_JOB="+jf, "VERIF_OUT="+of, "GOMEMLIMIT=4GiB")
	out, err := cmd.CombinedOutput()
	b, e2 := os.ReadFile(of)
	if e2 != nil {
		s := string(out)
		if len(s) > 3000 {
			s = s[:3000]
		}
		return nil, fmt.Errorf("replay gave no result: %v %s", err, s)
	}
	var ro replayOut
	if err := json.Unmarshal(b, &ro); err != nil {
		return nil, err
	}
	return &ro, nil
}

func check(prop string) int {
	t0 := time.Now()
	limit := 300 * time.Second
	if tier() == "thorough" {
		limit = 800 * time.Second
	}
	evDir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(evDir, 0755)
	ov, _, dirs, err := overlayFor(prop)
	if err != nil || len(dirs) == 0 {
		fmt.Println("error: no contracts for", prop, err)
		return 2
	}
	l, err := load(dirs, ov)
	if err != nil {
		fmt.Println("error: load:", err)
		return 2
	}
	var viols []violation
	var hs []*Harness
	results := map[string]*HResult{}
	if len(l.Errs) > 0 {
		// does the repository itself load?
		l0, err := load(dirs, nil)
		if err != nil || len(l0.Errs) > 0 {
			fmt.Println("error: the repository does not build:", err)
			if l0 != nil {
				fmt.Println(strings.Join(l0.Errs, "\n"))
			}
			return 2
		}
		viols = append(viols, violation{name: "contract does not type-check against the code", detail: strings.Join(l.Errs, "\n")})
	} else {
		hs = l.harnesses(prop)
		if len(hs) == 0 {
			fmt.Println("error: no contract harness for", prop)
			return 2
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		sem := make(chan bool, workers())
		for _, h := range hs {
			wg.Add(1)
			go func(h *Harness) {
				defer wg.Done()
				sem <- true
				r := l.verify(h, limit)
				<-sem
				mu.Lock()
				results[h.Name] = r
				mu.Unlock()
			}(h)
		}
		wg.Wait()
		for _, h := range hs {
			r := results[h.Name]
			bad := false
			for _, o := range r.Obls {
				if o.Status != "discharged" {
					bad = true
					viols = append(viols, violation{h, o.Name, o.Status + ": " + o.Detail, o.Model})
				}
			}
			if r.Err != "" && !bad {
				viols = append(viols, violation{h, h.Name + "/all obligations generated", "undischarged: " + r.Err, nil})
			}
		}
	}
	known := knownFindings(prop)
	var fresh []violation
	seenKnown := map[string]bool{}
	for _, v := range viols {
		hit := false
		for _, k := range known {
			if k.key == v.name {
				hit = true
				if !seenKnown[k.key] {
					seenKnown[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, v.name, k.text)
				}
			}
		}
		if !hit {
			fresh = append(fresh, v)
		}
	}
	code := 0
	var replayInfo map[string]interface{}
	if len(fresh) > 0 {
		code = 1
		path, failing, info := demonstrate(prop, l, ov, hs, fresh)
		replayInfo = info
		line := fmt.Sprintf("VIOLATION property=%s replay=%s", prop, path)
		if !failing {
			line += " no-failing-input-found"
		}
		for i, v := range fresh {
			if i < 12 {
				fmt.Printf("undischarged: %s (%s)\n", v.name, firstLine(v.detail))
			}
		}
		fmt.Println(line)
	}
	writeEvidence(prop, evDir, l, hs, results, fresh, len(seenKnown), time.Since(t0), replayInfo)
	if code == 0 {
		n, d := 0, 0
		for _, r := range results {
			n += r.Counts["checks"]
			d += r.Counts["discharged"]
		}
		fmt.Printf("held: property=%s contracts=%d obligations=%d discharged=%d wall=%.1fs\n", prop, len(hs), n, d, time.Since(t0).Seconds())
	}
	return code
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = strings.ToValidUTF8(s[:300], "")
	}
	return s
}

func workers() int {
	n, err := strconv.Atoi(os.Getenv("VGO_WORKERS"))
	if err == nil && n > 0 {
		return n
	}
	return 6
}

func demonstrate(prop string, l *Loaded, ov map[string][]byte, hs []*Harness, vs []violation) (string, bool, map[string]interface{}) {
	rdir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(rdir, 0755)
	path := filepath.Join(rdir, prop+".json")
	tmp, err := os.MkdirTemp("", "vgo-replay-")
	if err != nil {
		tmp = rdir
	} else {
		defer os.RemoveAll(tmp)
	}
	rep := &replayer{dir: tmp, bins: map[string]string{}, ov: ov, hs: hs, prop: prop}
	var obl []map[string]string
	for _, v := range vs {
		obl = append(obl, map[string]string{"obligation": v.name, "verifier": v.detail})
	}
	info := map[string]interface{}{"property": prop, "undischarged": obl, "rerun": "cd /verif && .bin/vgo replay " + path}
	save := func() {
		b, _ := json.MarshalIndent(info, "", " ")
		os.WriteFile(path, append(b, '\n'), 0644)
	}
	var notes []string
	try := func(v violation, mode string, secs float64) bool {
		ro, err := rep.run(v.h, mode, v.model, secs)
		if err != nil {
			notes = append(notes, v.h.Name+": "+err.Error())
			return false
		}
		notes = append(notes, fmt.Sprintf("%s %s: tried %d", v.h.Name, mode, ro.Tried))
		if ro.Failed {
			info["harness"] = v.h.Name
			info["package"] = v.h.Pkg
			info["obligation"] = v.name
			info["input"] = ro.Input
			info["input_json"] = ro.JSON
			info["source"] = ro.Source
			info["failed_postconditions"] = ro.Failures
			info["panic"] = ro.Panic
			info["notes"] = notes
			info["seed"] = seed()
			save()
			return true
		}
		return false
	}
	for _, v := range vs {
		if v.h != nil && v.model != nil && try(v, "replay", 0) {
			return path, true, info
		}
	}
	seen := map[string]bool{}
	n := 0
	for _, v := range vs {
		if v.h != nil && !seen[v.h.Name] {
			seen[v.h.Name] = true
			n++
		}
	}
	seen = map[string]bool{}
	for _, v := range vs {
		if v.h == nil || seen[v.h.Name] {
			continue
		}
		seen[v.h.Name] = true
		secs := 60.0 / float64(n)
		if secs > 15 {
			secs = 15
		}
		if secs < 4 {
			secs = 4
		}
		if try(v, "search", secs) {
			return path, true, info
		}
	}
	info["result"] = "no failing input found; the named obligations are undischarged"
	info["notes"] = notes
	save()
	return path, false, info
}

func writeEvidence(prop, dir string, l *Loaded, hs []*Harness, rs map[string]*HResult, viols []violation, known int, wall time.Duration, replay map[string]interface{}) {
	type M = map[string]interface{}
	oblig, disch, simp, fail, unk := 0, 0, 0, 0, 0
	named, namedOK := 0, 0
	bounded, boundedOK := 0, 0
	by := map[string]int{}
	var solver time.Duration
	queries := 0
	fns := map[string]bool{}
	trusted := map[string]bool{}
	assume := map[string]bool{}
	var list []M
	var loops []M
	for _, h := range hs {
		r := rs[h.Name]
		if r == nil {
			continue
		}
		if b := h.Dirs["bounded"]; len(b) > 0 {
			bounded += r.Counts["checks"]
			boundedOK += r.Counts["discharged"]
			assume["BOUNDED contract "+h.Name+" (not counted as proved): "+strings.Join(b, "; ")] = true
		} else {
			oblig += r.Counts["checks"]
			disch += r.Counts["discharged"]
			named += len(r.Obls)
			for _, o := range r.Obls {
				if o.Status == "discharged" {
					namedOK++
				}
			}
		}
		simp += r.Counts["by simplification"]
		fail += r.Counts["failed"]
		unk += r.Counts["unknown"]
		for k, v := range r.ByBack {
			by[k] += v
		}
		solver += r.Solver
		queries += r.Queries
		for _, f := range r.Inlined {
			fns[f] = true
		}
		for _, t := range r.Trusted {
			trusted[t] = true
		}
		for _, t := range r.Assume {
			assume[t] = true
		}
		var os []M
		for _, o := range r.Obls {
			os = append(os, M{"name": o.Name, "status": o.Status})
		}
		list = append(list, M{"contract": h.Name, "obligations": os, "checks": r.Counts["checks"], "discharged": r.Counts["discharged"], "paths": r.Returned, "wall_s": r.Wall.Seconds(), "error": r.Err})
		for _, lo := range r.Loops {
			loops = append(loops, M{"contract": h.Name, "loop_in": lo.Fn, "candidates": lo.Cands, "invariants_kept": lo.Kept})
		}
	}
	base := append(baseTrust(), sortedKeys(trusted)...)
	ev := M{
		"property": prop, "tier": tier(), "seed": seed(), "level": "proof", "wall_s": wall.Seconds(),
		"violations":  len(viols),
		"assumptions": append(append([]string{}, baseAssumptions()...), sortedKeys(assume)...),
		"coverage": M{
			"obligations": oblig, "discharged": disch,
			"checker_cmd":                "bash /verif/check.sh " + prop,
			"trusted_base":               base,
			"contracts":                  len(hs),
			"named_obligations":          named,
			"named_obligations_held":     namedOK,
			"discharged_by_simplifier":   simp,
			"solver_queries":             queries,
			"solver_queries_by_back_end": by,
			"solver_seconds":             solver.Seconds(),
			"functions_under_contract":   sortedKeys(fns),
			"failed":                     fail,
			"unknown":                    unk,
			"bounded_obligations":        bounded,
			"bounded_obligations_held":   boundedOK,
			"known_findings":             known,
			"loop_invariants":            loops,
			"contract_results":           list,
		},
	}
	if replay != nil {
		ev["coverage"].(M)["violation"] = replay
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0644)
}

func baseTrust() []string {
	return []string{
		"golang.org/x/tools/go/packages and go/ssa v0.52.0 (the verified text is the SSA form of /repo's working tree, built on every run; the Go compiler is trusted to agree with it)",
		"vgo, the verification-condition generator in /verif/vgo",
		"SMT solvers z3 and cvc5",
	}
}

func baseAssumptions() []string {
	return []string{
		"partial correctness: termination of loops and recursion is not proved",
		"slices and strings handed to the code are shorter than 2^31 elements; allocation never fails",
		"machine integers are modelled exactly (bit vectors); nothing is treated as mathematical integers",
	}
}

func replayCmd(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var info map[string]interface{}
	json.Unmarshal(b, &info)
	prop, _ := info["property"].(string)
	hn, _ := info["harness"].(string)
	in, _ := info["input_json"].(map[string]interface{})
	if hn == "" {
		fmt.Println("the file records no failing input")
		return 2
	}
	ov, _, dirs, err := overlayFor(prop)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	l, err := load(dirs, ov)
	if err != nil || len(l.Errs) > 0 {
		fmt.Println(err, l.Errs)
		return 2
	}
	hs := l.harnesses(prop)
	tmp, _ := os.MkdirTemp("", "vgo-replay-")
	defer os.RemoveAll(tmp)
	rep := &replayer{dir: tmp, bins: map[string]string{}, ov: ov, hs: hs, prop: prop}
	for _, h := range hs {
		if h.Name == hn {
			ro, err := rep.run(h, "replay", in, 0)
			if err != nil {
				fmt.Println(err)
				return 2
			}
			fmt.Printf("failed=%v %v %s\n", ro.Failed, ro.Failures, ro.Panic)
			for _, s := range ro.Input {
				fmt.Println("  ", s)
			}
			if ro.Failed {
				return 1
			}
			return 0
		}
	}
	fmt.Println("no such contract", hn)
	return 2
}

// searchCmd runs the contracts of a property on generated inputs (development
// aid: the contracts must hold concretely too).
func searchCmd(prop, pat string, secs float64) int {
	ov, _, dirs, err := overlayFor(prop)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	l, err := load(dirs, ov)
	if err != nil || len(l.Errs) > 0 {
		fmt.Println(err, l.Errs)
		return 2
	}
	hs := l.harnesses(prop)
	tmp, _ := os.MkdirTemp("", "vgo-replay-")
	defer os.RemoveAll(tmp)
	rep := &replayer{dir: tmp, bins: map[string]string{}, ov: ov, hs: hs, prop: prop}
	code := 0
	for _, h := range hs {
		if !strings.Contains(h.Name, pat) {
			continue
		}
		ro, err := rep.run(h, "search", nil, secs)
		if err != nil {
			fmt.Println(h.Name, err)
			code = 2
			continue
		}
		fmt.Printf("%s tried=%d skipped=%d failed=%v %v %s\n", h.Name, ro.Tried, ro.Skipped, ro.Failed, ro.Failures, ro.Panic)
		for _, s := range ro.Input {
			fmt.Println("     ", s)
		}
	}
	return code
}

func sortStrings(s []string) []string { sort.Strings(s); return s }
