package main

import (
	"fmt"
	"math/big"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------- decisions

const (
	decBranch = iota
	decChoice
)

// Dec is one recorded decision of a path.
type Dec struct {
	kind     uint8
	chosen   int // branch: 1 = literal true, 0 = false; choice: index
	n        int // choice: number of alternatives
	next     int // choice: next alternative to try
	forced   bool
	alt      bool // branch: the other side is pending
	altModel Model
	aux      *big.Rat // concretisation value
}

type fact struct {
	lo, hi   *big.Rat
	loS, hiS bool
	ne       []*big.Rat
}

// path-ending panics
type pathEnd struct {
	kind string // "dead", "violation", "unsupported", "unknown"
	msg  string
}

// Path is the state of one symbolic execution.
type Path struct {
	w       *Worker
	pos     int
	emit    bool
	vars    []*Var
	inputs  []*Var
	draws   []*Var // random draws, in order
	drawn   int    // how many of them the current generators made
	model   Model
	facts   map[string]*fact
	covers  map[string]bool
	steps   int64
	roundM  map[string]*Lin
	eqC     map[[2]*Lin]value
	nInput  map[string]int
	pc      int // number of literals in the path condition
	mapOrd  bool
	choices []choiceRec
	obs     []obsRec
	trace   []string
	site    func() string // where execution is (debugging)
	inexact bool          // a branch depends on a rounding error
}

type choiceRec struct {
	name string
	val  int
}

type obsRec struct {
	name string
	v    value // concrete or symbolic scalar/string
}

// Violation is a candidate counterexample.
type Violation struct {
	Harness string
	Kind    string // assert, panic, exit, deadlock, hang
	Label   string
	Detail  string
	Inputs  map[string][]string
	MapOrd  bool
	Trace   []string
}

// ---------------------------------------------------------------- exploration

type Job struct {
	stack []Dec
	model Model
}

type Explorer struct {
	h        *Harness
	prog     *Program
	mu       sync.Mutex
	cond     *sync.Cond
	jobs     []*Job
	idle     int
	nworkers int
	done     bool
	stop     atomic.Bool
	stopWhy  string
	idleN    atomic.Int32

	// results (under mu)
	paths, dead, unsupported, unknown int
	nAsserts, nAssertQ                int
	steps                             int64
	maxDec                            int
	unsMsgs                           map[string]int
	covers                            map[string]int
	viol                              map[string][]*Violation
	samples                           []*Sample
	queries, sat, unsat, unk          int
	solverTime                        time.Duration
	funcs                             map[string]bool
	deadline                          time.Time
	maxPaths                          int
	assertLabels                      map[string]int
	leftover                          int
	nodes                             int
}

// Sample is a passing path with a model, used to validate the encoding against native execution.
type Sample struct {
	Inputs map[string][]string
	Obs    []string
	MapOrd bool
}

type Worker struct {
	ex     *Explorer
	s      *Solver
	stack  []Dec
	flip   int // decisions below this index are already in the solver
	model  Model
	npaths int
	nodes  int
	rng    uint64
}

func (ex *Explorer) run(nw int) error {
	ex.cond = sync.NewCond(&ex.mu)
	ex.nworkers = nw
	ex.jobs = []*Job{{}}
	ex.unsMsgs = map[string]int{}
	ex.covers = map[string]int{}
	ex.viol = map[string][]*Violation{}
	ex.funcs = map[string]bool{}
	ex.assertLabels = map[string]int{}
	var wg sync.WaitGroup
	errs := make(chan error, nw)
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := &Worker{ex: ex, rng: uint64(i)*0x9E3779B97F4A7C15 + 12345}
			defer func() {
				if r := recover(); r != nil {
					errs <- fmt.Errorf("worker: %v", r)
					ex.mu.Lock()
					ex.stopLocked("worker failure: " + fmt.Sprint(r))
					ex.done = true
					ex.cond.Broadcast()
					ex.mu.Unlock()
				}
				if w.s != nil {
					ex.mu.Lock()
					ex.queries += w.s.queries
					ex.sat += w.s.sat
					ex.unsat += w.s.unsat
					ex.unk += w.s.unknown
					ex.solverTime += w.s.tm
					ex.mu.Unlock()
					w.s.close()
				}
			}()
			w.loop()
		}(i)
	}
	wg.Wait()
	select {
	case err := <-errs:
		return err
	default:
	}
	return nil
}

func (ex *Explorer) stopLocked(why string) {
	if !ex.stop.Load() {
		ex.stopWhy = why
		ex.stop.Store(true)
	}
}

func (ex *Explorer) take() *Job {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.idle++
	ex.idleN.Store(int32(ex.idle))
	for {
		if ex.done {
			return nil
		}
		if len(ex.jobs) > 0 && !ex.stop.Load() {
			j := ex.jobs[0]
			ex.jobs = ex.jobs[1:]
			ex.idle--
			ex.idleN.Store(int32(ex.idle - len(ex.jobs)))
			return j
		}
		if ex.idle == ex.nworkers {
			ex.leftover += len(ex.jobs)
			ex.done = true
			ex.cond.Broadcast()
			return nil
		}
		ex.cond.Wait()
	}
}

func (w *Worker) loop() {
	for {
		j := w.ex.take()
		if j == nil {
			return
		}
		if w.s == nil {
			s, err := newSolver(w.ex.prog.z3, w.ex.h.qtmo())
			if err != nil {
				panic(err)
			}
			w.s = s
		}
		w.s.reset()
		w.s.push()
		w.stack = append([]Dec(nil), j.stack...)
		w.model = j.model
		w.flip = 0
		first := true
		for {
			w.runPath(first)
			first = false
			if w.s.dead.Load() {
				if err := w.renew(); err != nil {
					panic(err)
				}
				first = true
			}
			if w.ex.stop.Load() {
				n := 0
				for i := range w.stack {
					if w.stack[i].alt || w.stack[i].next < w.stack[i].n {
						n++
					}
				}
				w.ex.mu.Lock()
				w.ex.leftover += n
				w.ex.mu.Unlock()
				break
			}
			w.donate()
			if !w.backtrack() {
				break
			}
			if first {
				w.flip = 0
				w.s.push()
			}
		}
	}
}

// pending alternatives: branch with alt; choice with next < n.
func (d *Dec) pending() bool {
	if d.kind == decBranch {
		return d.alt
	}
	return d.next < d.n
}

func (w *Worker) flipDec(d *Dec) Model {
	if d.kind == decBranch {
		d.chosen = 1 - d.chosen
		d.alt = false
		m := d.altModel
		d.altModel = nil
		return m
	}
	d.chosen = d.next
	d.next++
	return d.altModel.clone()
}

func (m Model) clone() Model {
	r := make(Model, len(m)+4)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (w *Worker) donate() {
	if w.ex.idleN.Load() <= 0 {
		return
	}
	for i := range w.stack {
		if !w.stack[i].pending() {
			continue
		}
		st := make([]Dec, i+1)
		copy(st, w.stack[:i+1])
		for k := range st[:i] {
			st[k].alt = false
			st[k].altModel = nil
			st[k].next = st[k].n
		}
		m := w.flipDec(&st[i])
		st[i].next = st[i].n
		st[i].altModel = nil
		if w.stack[i].kind == decBranch {
			w.stack[i].alt = false
			w.stack[i].altModel = nil
		} else {
			w.stack[i].next++
		}
		ex := w.ex
		ex.mu.Lock()
		ex.jobs = append(ex.jobs, &Job{stack: st, model: m})
		ex.idleN.Store(int32(ex.idle - len(ex.jobs)))
		ex.cond.Signal()
		more := ex.idle > len(ex.jobs)
		ex.mu.Unlock()
		if !more {
			return
		}
	}
}

// renew replaces a solver that had to be ended; the remaining alternatives are rerun from the start.
func (w *Worker) renew() error {
	s, err := newSolver(w.ex.prog.z3, w.ex.h.qtmo())
	if err != nil {
		return err
	}
	o := w.s
	s.queries, s.sat, s.unsat, s.unknown, s.tm = o.queries, o.sat, o.unsat, o.unknown+1, o.tm
	o.close()
	w.s = s
	return nil
}

func (w *Worker) backtrack() bool {
	for len(w.stack) > 0 {
		i := len(w.stack) - 1
		d := &w.stack[i]
		if d.pending() {
			w.model = w.flipDec(d)
			n := 1
			for k := 0; k < i; k++ {
				if !w.stack[k].forced {
					n++
				}
			}
			w.s.pop(w.s.depth - n)
			w.flip = i
			return true
		}
		w.stack = w.stack[:i]
	}
	return false
}

func (w *Worker) runPath(first bool) {
	p := &Path{w: w, facts: map[string]*fact{}, covers: map[string]bool{}, roundM: map[string]*Lin{}, eqC: map[[2]*Lin]value{}, nInput: map[string]int{}}
	p.emit = first
	if w.model == nil {
		w.model = Model{}
	}
	p.model = w.model
	in := newInterp(w.ex.prog, p)
	end := in.runHarness(w.ex.h)
	ex := w.ex
	w.npaths++
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.steps += p.steps
	ex.nodes += w.nodes
	w.nodes = 0
	if len(w.stack) > ex.maxDec {
		ex.maxDec = len(w.stack)
	}
	for f := range in.called {
		ex.funcs[f] = true
	}
	switch end.kind {
	case "ok":
		ex.paths++
		for c := range p.covers {
			ex.covers[c]++
		}
		w.sampleLocked(p)
	case "dead":
		ex.dead++
	case "violation":
		ex.paths++
		for c := range p.covers {
			ex.covers[c]++
		}
	case "unknown":
		ex.unknown++
		ex.unsMsgs["unknown: "+end.msg]++
	case "unsupported":
		ex.unsupported++
		ex.unsMsgs[end.msg]++
		if ex.h.verbose {
			fmt.Println("unsupported:", end.msg)
		}
		if ex.unsupported > 200 && ex.paths < ex.unsupported {
			ex.stopLocked("too many unsupported paths")
		}
	}
	if ex.maxPaths > 0 && ex.paths+ex.dead >= ex.maxPaths {
		ex.stopLocked("path budget")
	}
	if time.Now().After(ex.deadline) {
		ex.stopLocked("time budget")
	}
}

func (w *Worker) sampleLocked(p *Path) {
	ex := w.ex
	if ex.h.Sched || p.model == nil || p.inexact {
		return
	}
	// reservoir of up to 48 samples
	w.rng = w.rng*6364136223846793005 + 1442695040888963407
	const K = 32
	if len(ex.samples) < K || int((w.rng>>33)%uint64(ex.paths)) < K {
		s := p.sample()
		if s == nil {
			return
		}
		if len(ex.samples) < K {
			ex.samples = append(ex.samples, s)
		} else {
			ex.samples[int((w.rng>>20)%K)] = s
		}
	}
}

// ---------------------------------------------------------------- path operations

func (p *Path) newVar(name string, isInt bool, lo, hi *big.Rat) *Var {
	v := &Var{id: len(p.vars), isInt: isInt, lo: lo, hi: hi, name: name}
	p.vars = append(p.vars, v)
	if p.emit {
		p.w.s.declare(v)
	}
	return v
}

func (p *Path) define(v *Var, ev func(Model) *big.Rat, raw string) {
	v.def = true
	v.ev = ev
	if p.emit {
		p.w.s.assertRaw(raw)
	}
}

// constrain asserts a formula that only bounds the last defined variable (always satisfiable).
func (p *Path) constrainDef(v value) {
	f, ok := v.(*Form)
	if !ok {
		if !v.(bool) {
			panic("inconsistent definition")
		}
		return
	}
	if p.emit {
		p.w.s.assert(f)
	}
	p.learn(f)
}

// lemma adds a fact that always holds but that the current model, made without it, may contradict.
func (p *Path) lemma(v value) {
	p.constrainDef(v)
	f, ok := v.(*Form)
	if !ok || !p.emit || p.model == nil {
		return
	}
	if ev, known := evalForm(f, p.model); known && ev {
		return
	}
	switch p.w.s.check() {
	case 0: // the path was feasible only through the slack of a rounding
		panic(pathEnd{"dead", ""})
	case 1:
		if p.model = p.w.s.model(len(p.vars)); p.model != nil {
			return
		}
	}
	panic(pathEnd{"unknown", "lemma"})
}

func (p *Path) learn(f *Form) {
	switch f.op {
	case opAnd:
		p.learn(f.a)
		p.learn(f.b)
		return
	case opOr:
		return
	}
	ft := p.facts[f.key]
	if ft == nil {
		lo, hi := f.sig.bounds()
		ft = &fact{lo: lo, hi: hi}
		p.facts[f.key] = ft
	}
	switch f.op {
	case relLE, relLT:
		c := f.c.Cmp(ft.hi)
		if c < 0 {
			ft.hi, ft.hiS = f.c, f.op == relLT
		} else if c == 0 && f.op == relLT {
			ft.hiS = true
		}
	case relGE, relGT:
		c := f.c.Cmp(ft.lo)
		if c > 0 {
			ft.lo, ft.loS = f.c, f.op == relGT
		} else if c == 0 && f.op == relGT {
			ft.loS = true
		}
	case relEQ:
		ft.lo, ft.hi, ft.loS, ft.hiS = f.c, f.c, false, false
	case relNE:
		ft.ne = append(ft.ne, f.c)
	}
}

func (p *Path) decide(v value) (bool, bool) {
	f, ok := v.(*Form)
	if !ok {
		return v.(bool), true
	}
	switch f.op {
	case opAnd:
		a, ok := p.decide(f.a)
		if ok && !a {
			return false, true
		}
		b, ok2 := p.decide(f.b)
		if ok2 && !b {
			return false, true
		}
		return true, ok && ok2
	case opOr:
		a, ok := p.decide(f.a)
		if ok && a {
			return true, true
		}
		b, ok2 := p.decide(f.b)
		if ok2 && b {
			return true, true
		}
		return false, ok && ok2
	}
	ft := p.facts[f.key]
	if ft == nil {
		return false, false
	}
	if r, ok := decideBounds(f, ft.lo, ft.hi, ft.loS, ft.hiS); ok {
		return r, true
	}
	if f.op == relEQ || f.op == relNE {
		for _, c := range ft.ne {
			if c.Cmp(f.c) == 0 {
				return f.op == relNE, true
			}
		}
	}
	return false, false
}

// take records that literal f holds from now on (a new solver scope).
func (p *Path) assertLit(f *Form) {
	if p.emit {
		p.w.s.push()
		p.w.s.assert(f)
	}
	p.learn(f)
	p.pc++
	if !p.inexact && formUsesRounding(f) {
		p.inexact = true
	}
}

func (p *Path) replaying() bool { return p.pos < len(p.w.stack) }

// at the flipped decision the solver becomes live again
func (p *Path) arrive() {
	if !p.emit && p.pos == p.w.flip {
		p.emit = true
	}
}

func (p *Path) solve(f *Form) (int, Model) {
	s := p.w.s
	s.push()
	s.assert(f)
	r := s.check()
	var m Model
	if r == 1 {
		m = s.model(len(p.vars))
	}
	s.pop(1)
	return r, m
}

// branch decides a condition, exploring both sides.
func (p *Path) branch(v value) bool {
	if b, ok := p.decide(v); ok {
		return b
	}
	return p.branchForm(v.(*Form), nil)
}

func (p *Path) branchForm(f *Form, aux *big.Rat) bool {
	if p.replaying() {
		p.arrive()
		d := &p.w.stack[p.pos]
		if d.kind != decBranch {
			panic("replay mismatch: branch")
		}
		p.pos++
		lit := f
		if d.chosen == 0 {
			lit = f.not()
		}
		if d.forced {
			p.learn(lit)
		} else {
			p.assertLit(lit)
		}
		return d.chosen == 1
	}
	if p.w.ex.stop.Load() {
		panic(pathEnd{"stop", ""})
	}
	side, ok := evalForm(f, p.model)
	if !ok {
		r, m := p.solve(f)
		if r < 0 {
			panic(pathEnd{"unknown", "branch"})
		}
		if r == 1 {
			if m == nil {
				panic(pathEnd{"unknown", "algebraic model"})
			}
			p.model = m
			side = true
		} else {
			p.w.nodes++
			p.w.stack = append(p.w.stack, Dec{kind: decBranch, chosen: 0, forced: true, aux: aux})
			p.pos++
			p.learn(f.not())
			return false
		}
	}
	lit := f
	ch := 1
	if !side {
		lit = f.not()
		ch = 0
	}
	r, m := p.solve(lit.not())
	d := Dec{kind: decBranch, chosen: ch, aux: aux}
	switch {
	case r == 0:
		d.forced = true
	case r == 1 && m != nil:
		d.alt = true
		d.altModel = m
		if siteProf != nil && p.site != nil {
			p.w.ex.mu.Lock()
			siteProf[p.site()]++
			p.w.ex.mu.Unlock()
		}
	default:
		p.w.ex.mu.Lock()
		p.w.ex.unknown++
		p.w.ex.unsMsgs["unknown: branch side"]++
		p.w.ex.mu.Unlock()
	}
	p.w.nodes++
	p.w.stack = append(p.w.stack, d)
	p.pos++
	if d.forced {
		p.learn(lit)
	} else {
		p.assertLit(lit)
	}
	return side
}

// choose is an n-way nondeterministic choice.
func (p *Path) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if p.replaying() {
		p.arrive()
		d := &p.w.stack[p.pos]
		if d.kind != decChoice || d.n != n {
			panic("replay mismatch: choice")
		}
		p.pos++
		if p.emit {
			p.w.s.push()
		}
		return d.chosen
	}
	if p.w.ex.stop.Load() {
		panic(pathEnd{"stop", ""})
	}
	p.w.nodes++
	p.w.stack = append(p.w.stack, Dec{kind: decChoice, chosen: 0, n: n, next: 1, altModel: p.model.clone()})
	p.pos++
	if p.emit {
		p.w.s.push()
	}
	return 0
}

// concretize picks a concrete value for l, exploring the others later.
func (p *Path) concretize(l *Lin) *big.Rat {
	if l.isConst() {
		return l.c
	}
	if siteProf != nil && p.site != nil {
		p.w.ex.mu.Lock()
		siteProf["conc "+p.site()]++
		p.w.ex.mu.Unlock()
	}
	for {
		var val *big.Rat
		if p.replaying() {
			val = p.w.stack[p.pos].aux
			if val == nil {
				panic("replay mismatch: concretize")
			}
		} else {
			if v, ok := evalLin(l, p.model); ok {
				val = v
			} else {
				r := p.w.s.check()
				if r != 1 {
					panic(pathEnd{"unknown", "concretize"})
				}
				p.model = p.w.s.model(len(p.vars))
				if p.model == nil {
					panic(pathEnd{"unknown", "algebraic model"})
				}
				val, _ = evalLin(l, p.model)
			}
		}
		c := mkCmp(linSub(l, linConst(val)), relEQ)
		f, ok := c.(*Form)
		if !ok {
			if !c.(bool) {
				panic("concretize")
			}
			return val
		}
		if p.branchForm(f, val) {
			return val
		}
	}
}

func (p *Path) assume(v value) {
	if b, ok := p.decide(v); ok {
		if !b {
			panic(pathEnd{"dead", ""})
		}
		return
	}
	f := v.(*Form)
	// an assumption is part of the current scope
	if p.emit {
		if !p.replaying() {
			ev, ok := evalForm(f, p.model)
			p.w.s.assert(f)
			if !ok || !ev {
				r := p.w.s.check()
				if r == 0 {
					panic(pathEnd{"dead", ""})
				}
				if r < 0 {
					panic(pathEnd{"unknown", "assume"})
				}
				p.model = p.w.s.model(len(p.vars))
				if p.model == nil {
					panic(pathEnd{"unknown", "algebraic model"})
				}
			}
		} else {
			p.w.s.assert(f)
		}
	}
	p.learn(f)
	p.pc++
}

// inputs of the current model, by name in creation order
func (p *Path) inputMap(m Model) map[string][]string {
	r := map[string][]string{}
	for _, v := range p.inputs {
		x, ok := m[v.id]
		if !ok {
			x = v.lo
		}
		r[v.name] = append(r[v.name], x.RatString())
	}
	for _, c := range p.choices {
		r[c.name] = append(r[c.name], fmt.Sprint(c.val))
	}
	return r
}

func (p *Path) report(kind, label, detail string, m Model) {
	ex := p.w.ex
	if m == nil {
		m = p.model
	}
	v := &Violation{Harness: ex.h.Name, Kind: kind, Label: label, Detail: detail, Inputs: p.inputMap(m), MapOrd: p.mapOrd, Trace: p.trace}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	key := kind + ":" + label
	if len(ex.viol[key]) < 40 {
		ex.viol[key] = append(ex.viol[key], v)
	}
	n := 0
	for _, l := range ex.viol {
		n += len(l)
	}
	if n >= ex.h.maxViol() {
		ex.stopLocked("violations found")
	}
}

// check is an assertion: every value satisfying the path condition must satisfy v.
func (p *Path) check(v value, label string) {
	ex := p.w.ex
	if !(p.replaying() || !p.emit) {
		ex.mu.Lock()
		ex.nAsserts++
		ex.assertLabels[label]++
		ex.mu.Unlock()
	}
	b, ok := p.decide(v)
	if ok {
		if !b {
			p.report("assert", label, "assertion is false on every value of this path", nil)
			panic(pathEnd{"violation", label})
		}
		return
	}
	f := v.(*Form)
	if p.replaying() || !p.emit {
		// already discharged when this prefix was first executed
		if p.emit {
			p.w.s.assert(f)
		}
		p.learn(f)
		return
	}
	ex.mu.Lock()
	ex.nAssertQ++
	ex.mu.Unlock()
	r, m := p.solve(f.not())
	switch {
	case r == 1:
		p.report("assert", label, "", m)
		// continue with the values that satisfy it
		p.w.s.assert(f)
		ev, known := evalForm(f, p.model)
		if !known || !ev {
			rr := p.w.s.check()
			if rr != 1 {
				panic(pathEnd{"violation", label})
			}
			p.model = p.w.s.model(len(p.vars))
			if p.model == nil {
				panic(pathEnd{"violation", label})
			}
		}
	case r == 0:
		// holds; assert it as a lemma
	default:
		ex.mu.Lock()
		ex.unknown++
		ex.unsMsgs["unknown: assertion "+label]++
		ex.mu.Unlock()
		p.w.s.assert(f)
		if ev, known := evalForm(f, p.model); !known || !ev {
			if p.w.s.check() != 1 {
				panic(pathEnd{"unknown", label})
			}
			p.model = p.w.s.model(len(p.vars))
			if p.model == nil {
				panic(pathEnd{"unknown", label})
			}
		}
	}
	p.learn(f)
}

func (p *Path) sample() *Sample {
	// a full model of the path condition
	s := &Sample{Inputs: p.inputMap(p.model), MapOrd: p.mapOrd}
	for _, o := range p.obs {
		t, ok := renderObs(o.v, p.model)
		if !ok {
			t = "?"
		}
		s.Obs = append(s.Obs, o.name+"="+t)
	}
	return s
}

// siteProf counts splits per place when VERIF_SITES is set.
var siteProf map[string]int
