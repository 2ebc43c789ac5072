package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func main() {
	debug.SetGCPercent(300)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: engine check PROPERTY quick|thorough [harness] | engine replay FILE")
		os.Exit(2)
	}
	if f := os.Getenv("VERIF_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if os.Getenv("VERIF_SITES") != "" {
		siteProf = map[string]int{}
	}
	switch os.Args[1] {
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		only := ""
		if len(os.Args) > 4 {
			only = os.Args[4]
		}
		c := check(os.Args[2], tier, only)
		pprof.StopCPUProfile()
		for k, n := range siteProf {
			fmt.Println(n, k)
		}
		os.Exit(c)
	case "replay":
		os.Exit(replayFile(os.Args[2]))
	}
	os.Exit(2)
}

func verifRoot() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

func repoRoot() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}

// one finding of a run
type finding struct {
	V       *Violation
	HS      *HSpec
	H       *Harness
	Outcome string
	File    string
}

type hResult struct {
	Name      string                 `json:"harness"`
	Func      string                 `json:"entry"`
	Bounds    string                 `json:"bounds"`
	Conf      map[string]interface{} `json:"configuration"`
	Exhausted bool                   `json:"all_paths_within_bounds"`
	Stopped   string                 `json:"stopped,omitempty"`
	Paths     int                    `json:"paths"`
	Dead      int                    `json:"infeasible_paths"`
	Unsup     int                    `json:"unsupported_paths"`
	Unknown   int                    `json:"solver_unknown"`
	Messages  map[string]int         `json:"messages,omitempty"`
	Asserts   int                    `json:"assertions_reached"`
	AssertQ   int                    `json:"assertion_queries"`
	Labels    map[string]int         `json:"assertions"`
	Covers    map[string]int         `json:"covered"`
	Queries   int                    `json:"queries"`
	Sat       int                    `json:"sat"`
	Unsat     int                    `json:"unsat"`
	SolverS   float64                `json:"solver_s"`
	Nodes     int                    `json:"decisions"`
	Steps     int64                  `json:"instructions"`
	Leftover  int                    `json:"unexplored_branches,omitempty"`
	Validated int                    `json:"native_runs_agreeing"`
	Mismatch  []string               `json:"native_runs_disagreeing,omitempty"`
	Spurious  []string               `json:"models_not_confirmed,omitempty"`
	WallS     float64                `json:"wall_s"`
}

func check(prop, tier, only string) int {
	t0 := time.Now()
	root, repo := verifRoot(), repoRoot()
	spec, err := loadSpec(filepath.Join(root, "harness", "spec.json"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "spec:", err)
		return 2
	}
	ps := spec.Props[prop]
	if ps == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	scratch, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, os.Interrupt, syscall.SIGTERM)
	go func() {
		<-sig
		os.RemoveAll(scratch)
		os.Exit(2)
	}()

	// group the harnesses by package and source set
	type group struct {
		key  string
		hs   []*HSpec
		prog *Program
		nat  *native
		err  error
		done chan struct{}
	}
	var groups []*group
	idx := map[string]*group{}
	for _, hs := range ps.Harnesses {
		if only != "" && hs.Name != only {
			continue
		}
		if hs.ThOnly && tier != "thorough" {
			continue
		}
		k := hs.Dir + "|" + hs.Pkg + "|" + strings.Join(hs.Files, ",") + "|" + fmt.Sprint(hs.Rand, hs.Legacy, hs.Rewrite)
		g := idx[k]
		if g == nil {
			g = &group{key: k, done: make(chan struct{})}
			idx[k] = g
			groups = append(groups, g)
		}
		g.hs = append(g.hs, hs)
	}
	for n, g := range groups {
		n, g := n, g
		go func() {
			defer close(g.done)
			h0 := g.hs[0]
			mod := filepath.Join(repo, h0.Dir)
			pkgDir := filepath.Join(mod, h0.Pkg)
			name, err := packageName(pkgDir)
			if err != nil {
				g.err = err
				return
			}
			ov, err := overlayFiles(root, name, h0.Files, pkgDir, h0.Rewrite)
			if err != nil {
				g.err = err
				return
			}
			var funcs []string
			for _, hs := range g.hs {
				funcs = append(funcs, hs.Func)
			}
			pov := map[string][]byte{}
			for f, b := range ov {
				pov[filepath.Join(pkgDir, f)] = b
			}
			pat := "./" + h0.Pkg
			g.prog, g.err = loadProgram(mod, pat, pov, goEnv(h0.Legacy), repoPrefix(h0, mod))
			if g.err == nil {
				g.prog.z3 = z3Bin()
			}
			g.nat = startNative(scratch, mod, h0.Pkg, ov, funcs, h0.Rand, h0.Legacy, n)
		}()
	}

	known := loadKnown(filepath.Join(root, "known_findings.txt"))
	var results []*hResult
	var viols []*finding
	knownHit := map[string]string{}
	funcs := map[string]bool{}
	var samples []interface{}
	broken := ""
	var wg sync.WaitGroup
	sem := make(chan bool, 3)
	var smps [][]interface{}
	var hss []*HSpec
	for _, g := range groups {
		<-g.done
		if g.err != nil {
			fmt.Fprintln(os.Stderr, "load:", g.err)
			broken = g.err.Error()
			continue
		}
		for _, hs := range g.hs {
			r, fs, sm := runHarnessSpec(hs, tier, g.prog, g.nat, funcs)
			results = append(results, r)
			hss = append(hss, hs)
			smps = append(smps, nil)
			wg.Add(1)
			go func(i int, hs *HSpec, g *group) {
				defer wg.Done()
				sem <- true
				smps[i] = validate(hs, r, sm, g.nat)
				<-sem
			}(len(smps)-1, hs, g)
			for _, f := range fs {
				if k := known.match(prop, f); k != "" {
					knownHit[k] = fmt.Sprintf("%s: %s (%s)", f.V.Kind, f.V.Label, f.Outcome)
					continue
				}
				viols = append(viols, f)
			}
		}
	}
	wg.Wait()
	for i, r := range results {
		hs := hss[i]
		samples = append(samples, smps[i]...)
		fmt.Printf("%-28s paths=%d exhausted=%v asserts=%d queries=%d unsup=%d unknown=%d validated=%d mismatch=%d wall=%.1fs\n",
			hs.Name, r.Paths, r.Exhausted, r.Asserts, r.Queries, r.Unsup, r.Unknown, r.Validated, len(r.Mismatch), r.WallS)
		for m, n := range r.Messages {
			fmt.Printf("    note: %s (%d)\n", m, n)
		}
		for _, m := range r.Mismatch {
			fmt.Printf("    disagreement: %s\n", m)
		}
		for _, m := range r.Spurious {
			fmt.Printf("    not confirmed: %s\n", m)
		}
		for _, c := range hs.Covers {
			if r.Covers[c] == 0 {
				fmt.Printf("    not covered: %s\n", c)
			}
		}
	}

	// report
	var ev = map[string]interface{}{}
	cov := map[string]interface{}{}
	nodes, paths, validated, q, sat, uns := 0, 0, 0, 0, 0, 0
	var steps int64
	var st float64
	for _, r := range results {
		nodes += r.Nodes
		paths += r.Paths + r.Dead
		validated += r.Validated
		q += r.Queries
		sat += r.Sat
		uns += r.Unsat
		steps += r.Steps
		st += r.SolverS
	}
	cov["states"] = nodes + paths
	cov["transitions"] = steps
	cov["traces_validated_against_impl"] = validated
	cov["samples"] = samples
	exh := len(results) > 0
	for _, r := range results {
		exh = exh && r.Exhausted
	}
	cov["exhaustive"] = exh
	cov["explanation"] = "Symbolic execution of the compiled (SSA) code of /repo; states are symbolic states (decision nodes and path ends), transitions are executed SSA instructions; every branch and assertion is decided by z3 for all values within the bounds; sampled path models are run natively and must agree with the symbolic run."
	cov["queries"] = map[string]interface{}{"total": q, "sat": sat, "unsat": uns, "solver_seconds": round3(st), "solver": z3Bin()}
	cov["harnesses"] = results
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov["functions_encoded"] = fl
	cov["outside_bounds"] = ps.Outside
	if broken != "" {
		cov["load_error"] = broken
	}
	lvl := ps.Level
	if lvl == "" {
		lvl = "model_checking"
	}
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			seed = n
		}
	}
	ev["property"] = prop
	ev["tier"] = tier
	ev["seed"] = seed
	ev["level"] = lvl
	ev["coverage"] = cov
	ev["assumptions"] = ps.Assumptions
	ev["violations"] = len(viols)
	evDir := filepath.Join(root, "evidence")
	os.MkdirAll(evDir, 0o755)
	code := 0
	for i, f := range viols {
		f.File = filepath.Join(evDir, fmt.Sprintf("%s-violation-%d.json", prop, i+1))
		writeReplay(prop, tier, f)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f.File)
		fmt.Printf("    harness %s: %s %q; native replay: %s\n", f.HS.Name, f.V.Kind, f.V.Label, f.Outcome)
		if f.V.Detail != "" {
			fmt.Printf("    %s\n", f.V.Detail)
		}
		fmt.Printf("    inputs: %s\n", fmtInputs(f.V.Inputs))
		code = 1
	}
	for _, l := range known.list {
		if l.prop == prop && !l.fixed {
			if knownHit[l.key] != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, l.text)
			}
		}
	}
	if broken != "" && code == 0 {
		fmt.Fprintln(os.Stderr, "the check could not run:", broken)
		code = 2
	}
	ev["wall_s"] = round3(time.Since(t0).Seconds())
	b, _ := json.MarshalIndent(ev, "", " ")
	if only == "" {
		if err := os.WriteFile(filepath.Join(evDir, prop+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s %s: %d paths, %d queries, %.1fs solver, %.1fs wall, %d violations\n", prop, tier, paths, q, st, time.Since(t0).Seconds(), len(viols))
	return code
}

func round3(f float64) float64 { return float64(int64(f*1000)) / 1000 }

func fmtInputs(m map[string][]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var l []string
	for _, k := range ks {
		l = append(l, k+"="+strings.Join(m[k], ","))
	}
	s := strings.Join(l, " ")
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

func repoPrefix(h *HSpec, mod string) string {
	if h.Legacy {
		return "_/" // relative imports
	}
	b, _ := os.ReadFile(filepath.Join(mod, "go.mod"))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			return strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	return "simulator/"
}

func z3Bin() string {
	if z := os.Getenv("VERIF_Z3"); z != "" {
		return z
	}
	return "z3"
}

func nWorkers() int {
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		if n, err := strconv.Atoi(s); err == nil && n > 0 {
			return n
		}
	}
	return 8
}

func runHarnessSpec(hs *HSpec, tier string, prog *Program, nat *native, funcs map[string]bool) (*hResult, []*finding, []*Sample) {
	t0 := time.Now()
	h := hs.harness(tier)
	h.verbose = os.Getenv("VERIF_VERBOSE") != ""
	budget := hs.QBudget
	if budget == 0 {
		budget = 20
	}
	if tier == "thorough" {
		budget = hs.TBudget
		if budget == 0 {
			budget = 120
		}
	}
	deadline := t0.Add(time.Duration(budget * float64(time.Second)))
	r := &hResult{Name: hs.Name, Func: hs.Func, Bounds: hs.Bounds, Conf: h.Conf}
	var found []*finding
	var ex *Explorer
	for round := 0; round < 2; round++ {
		h.mv = 3
		if round == 1 {
			h.mv = 60
		}
		ex = &Explorer{h: h, prog: prog, deadline: deadline}
		if err := ex.run(nWorkers()); err != nil {
			r.Stopped = "engine: " + err.Error()
		}
		// confirm counterexamples natively
		var keys []string
		for k := range ex.viol {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		r.Spurious = nil
		for _, k := range keys {
			for i, v := range ex.viol[k] {
				if i >= 6 && round == 0 {
					break
				}
				rep := hs.Repeat
				if v.MapOrd && rep < 300 {
					rep = 300
				}
				out, err := nat.confirm(h, v, rep)
				if err != nil {
					r.Spurious = append(r.Spurious, k+": "+err.Error())
					break
				}
				if out == "ok" || out == "assume" || strings.HasPrefix(out, "missing conf") || strings.HasPrefix(out, "bad input") {
					r.Spurious = append(r.Spurious, fmt.Sprintf("%s: native run: %s; inputs %s", k, out, fmtInputs(v.Inputs)))
					continue
				}
				found = append(found, &finding{V: v, HS: hs, H: h, Outcome: out})
				break
			}
		}
		if len(found) > 0 || len(ex.viol) == 0 || !strings.HasPrefix(ex.stopWhy, "violations") {
			break
		}
	}
	for f := range ex.funcs {
		funcs[f] = true
	}
	r.Stopped += ex.stopWhy
	r.Paths, r.Dead, r.Unsup, r.Unknown = ex.paths, ex.dead, ex.unsupported, ex.unknown
	r.Messages, r.Asserts, r.AssertQ, r.Labels, r.Covers = ex.unsMsgs, ex.nAsserts, ex.nAssertQ, ex.assertLabels, ex.covers
	r.Queries, r.Sat, r.Unsat, r.SolverS = ex.queries, ex.sat, ex.unsat, round3(ex.solverTime.Seconds())
	r.Nodes, r.Steps, r.Leftover = ex.nodes, ex.steps, ex.leftover
	r.Exhausted = ex.stopWhy == "" && r.Stopped == "" && ex.unsupported == 0 && ex.unknown == 0 && ex.leftover == 0

	nmax := 12
	if tier == "thorough" {
		nmax = 48
	}
	if len(ex.samples) > nmax {
		ex.samples = ex.samples[:nmax]
	}
	r.WallS = round3(time.Since(t0).Seconds())
	return r, found, ex.samples
}

// validate checks the encoding: models of passing paths are run natively and must agree.
func validate(hs *HSpec, r *hResult, samples []*Sample, nat *native) []interface{} {
	// validate the encoding: models of passing paths run natively
	var smp []interface{}
	if len(samples) > 0 {
		var cs []*natCase
		for _, s := range samples {
			cs = append(cs, &natCase{Func: hs.Func, Inputs: s.Inputs, Conf: r.Conf})
		}
		outs, died, err := nat.run(cs, 60*time.Second)
		if err != nil {
			r.Mismatch = append(r.Mismatch, err.Error())
		} else {
			for i, o := range outs {
				s := samples[i]
				why := ""
				if o.Outcome != "ok" {
					why = "native outcome " + o.Outcome
				} else if !s.MapOrd {
					if len(o.Obs) != len(s.Obs) {
						why = fmt.Sprintf("%d observations instead of %d", len(o.Obs), len(s.Obs))
					} else {
						for k := range o.Obs {
							if strings.HasSuffix(s.Obs[k], "=?") {
								continue
							}
							if o.Obs[k] != s.Obs[k] {
								why = fmt.Sprintf("observed %q, symbolic run gives %q", o.Obs[k], s.Obs[k])
								break
							}
						}
					}
				} else if o.Outcome != "ok" {
					continue
				}
				if why == "" {
					r.Validated++
				} else if len(r.Mismatch) < 5 {
					r.Mismatch = append(r.Mismatch, why+"; inputs "+fmtInputs(s.Inputs))
				}
			}
			if died != "" {
				r.Mismatch = append(r.Mismatch, "native process ended: "+died)
			}
		}
		for i, s := range samples {
			if i >= 2 {
				break
			}
			obs := s.Obs
			if len(obs) > 12 {
				obs = obs[:12]
			}
			smp = append(smp, map[string]interface{}{"harness": hs.Name, "inputs": s.Inputs, "observations": obs})
		}
	}
	return smp
}

type replayDoc struct {
	Property string
	Tier     string
	Harness  *HSpec
	Case     *natCase
	Kind     string
	Label    string
	Detail   string
	Native   string
	MapOrder bool
	HowTo    string
}

func writeReplay(prop, tier string, f *finding) {
	rep := f.HS.Repeat
	if f.V.MapOrd && rep < 300 {
		rep = 300
	}
	d := &replayDoc{Property: prop, Tier: tier, Harness: f.HS, Kind: f.V.Kind, Label: f.V.Label, Detail: f.V.Detail, Native: f.Outcome, MapOrder: f.V.MapOrd,
		Case:  &natCase{Func: f.H.Func, Inputs: f.V.Inputs, Conf: f.H.Conf, Repeat: rep},
		HowTo: "bash /verif/tools/check.sh replay " + f.File}
	b, _ := json.MarshalIndent(d, "", " ")
	os.WriteFile(f.File, append(b, '\n'), 0o644)
}

func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	d := &replayDoc{}
	if err := json.Unmarshal(b, d); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	scratch, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(scratch)
	mod := filepath.Join(repoRoot(), d.Harness.Dir)
	name, err := packageName(filepath.Join(mod, d.Harness.Pkg))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ov, err := overlayFiles(verifRoot(), name, d.Harness.Files, filepath.Join(mod, d.Harness.Pkg), d.Harness.Rewrite)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	nt := startNative(scratch, mod, d.Harness.Pkg, ov, []string{d.Case.Func}, d.Harness.Rand, d.Harness.Legacy, 0)
	outs, died, err := nt.run([]*natCase{d.Case}, 60*time.Second)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	out := died
	if len(outs) > 0 {
		out = outs[0].Outcome
		for _, o := range outs[0].Obs {
			fmt.Println("  ", o)
		}
	}
	fmt.Println("outcome:", out)
	if out == "ok" || out == "assume" {
		return 0
	}
	return 1
}

// ---------------------------------------------------------------- known findings

type knownEntry struct {
	prop, key, text string
	harness, match  string
	fixed           bool
}

type knownList struct{ list []*knownEntry }

// Lines: "known: property=ID harness=NAME match=KIND:LABEL | text" or "fixed: ...".
func loadKnown(path string) *knownList {
	k := &knownList{}
	b, err := os.ReadFile(path)
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		e := &knownEntry{key: l}
		head, text, _ := strings.Cut(strings.TrimPrefix(l, "known:"), "|")
		e.text = strings.TrimSpace(text)
		for _, f := range strings.Fields(head) {
			a, v, _ := strings.Cut(f, "=")
			switch a {
			case "property":
				e.prop = v
			case "harness":
				e.harness = v
			case "match":
				e.match = v
			}
		}
		if e.prop != "" && e.harness != "" && e.match != "" {
			k.list = append(k.list, e)
		}
	}
	return k
}

func (k *knownList) match(prop string, f *finding) string {
	for _, e := range k.list {
		if e.prop == prop && e.harness == f.HS.Name && e.match == strings.ReplaceAll(f.V.Kind+":"+f.V.Label, " ", "_") {
			return e.key
		}
	}
	return ""
}
