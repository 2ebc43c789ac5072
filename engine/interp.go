package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"runtime"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- compiled functions

type opKind uint8

const (
	oReg opKind = iota
	oConst
	oZero
	oGlobal
)

type opnd struct {
	k   opKind
	i   int
	v   value
	t   types.Type
	g   *ssa.Global
	src ssa.Value
}

type step func(in *Interp, fr *frame)

type cblock struct {
	phis  []cphi
	steps []step
	term  ssa.Instruction
	tOp   []opnd
	succs []int
	preds []*ssa.BasicBlock
	n     int64
}

type cphi struct {
	reg   int
	edges []opnd
}

type fnInfo struct {
	fn      *ssa.Function
	name    string
	nregs   int
	nparams int
	blocks  []cblock
	recover int
	stub    stubFn
	repo    bool
}

type stubFn func(in *Interp, fr *frame, args []value) value

type deferRec struct {
	fn   value
	args []value
	next *deferRec
}

type frame struct {
	in        *Interp
	fi        *fnInfo
	regs      []value
	defers    *deferRec
	result    value
	panicking bool
	panicVal  interface{}
	caller    *frame
	depth     int
	g         *gor
}

type targetPanic struct{ v value }

// Interp executes one path.
type Interp struct {
	P         *Program
	p         *Path
	globals   []*value
	inited    map[*ssa.Package]int
	csvs      map[*value]*csvRd
	called    map[string]bool
	natives   map[*value]*opaque
	fs        *memFS
	sched     scheduler
	limit     int64
	tmpN      int
	randCnt   int
	nowN      int64
	hn        *Harness
	nhung     bool
	errs      map[string]iface
	zapL      *value
	jsonSaved iface
	rtypes    map[string]*value
}

func newInterp(P *Program, p *Path) *Interp {
	return &Interp{P: P, p: p, inited: map[*ssa.Package]int{}, called: map[string]bool{}, natives: map[*value]*opaque{}, fs: newMemFS()}
}

func (P *Program) info(fn *ssa.Function) *fnInfo {
	if fi, ok := P.fns.Load(fn); ok {
		return fi.(*fnInfo)
	}
	fi, _ := P.fns.LoadOrStore(fn, P.compile(fn))
	return fi.(*fnInfo)
}

func fnPkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	if fn.Origin() != nil {
		return fnPkgPath(fn.Origin())
	}
	if fn.Parent() != nil {
		return fnPkgPath(fn.Parent())
	}
	if fn.Signature.Recv() != nil {
		if n, ok := derefT(fn.Signature.Recv().Type()).(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

func derefT(t types.Type) types.Type {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		return types.Unalias(p.Elem())
	}
	return t
}

func (P *Program) compile(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, name: fn.String(), recover: -1}
	path := fnPkgPath(fn)
	fi.repo = path == P.main.Pkg.Path() || strings.HasPrefix(path, P.repoPfx)
	if st := findStub(P, fn, fi, path); st != nil {
		fi.stub = st
		return fi
	}
	return P.compileBody(fi)
}

func (P *Program) compileRaw(fn *ssa.Function) *fnInfo {
	return P.compileBody(&fnInfo{fn: fn, name: fn.String(), recover: -1})
}

func (P *Program) compileBody(fi *fnInfo) *fnInfo {
	fn := fi.fn
	path := fnPkgPath(fn)
	if fn.Pkg != nil {
		P.build(fn.Pkg)
	} else if q := P.pkgs[path]; q != nil {
		P.build(q)
	}
	if len(fn.Blocks) == 0 {
		name := fi.name
		fi.stub = func(in *Interp, fr *frame, args []value) value {
			panic(pathEnd{"unsupported", "no body: " + name})
		}
		return fi
	}
	P.bmu.Lock()
	defer P.bmu.Unlock()
	regs := map[ssa.Value]int{}
	n := 0
	add := func(v ssa.Value) {
		regs[v] = n
		n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.nregs = n
	fi.nparams = len(fn.Params)
	c := &compiler{P: P, fi: fi, regs: regs}
	for _, b := range fn.Blocks {
		cb := cblock{preds: b.Preds}
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, i := range b.Instrs {
			cb.n++
			switch x := i.(type) {
			case *ssa.Phi:
				ph := cphi{reg: regs[x]}
				for _, e := range x.Edges {
					ph.edges = append(ph.edges, c.op(e))
				}
				cb.phis = append(cb.phis, ph)
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
				cb.term = i
				for _, o := range i.Operands(nil) {
					cb.tOp = append(cb.tOp, c.op(*o))
				}
			case *ssa.DebugRef:
			default:
				if s := c.instr(i); s != nil {
					cb.steps = append(cb.steps, s)
				}
			}
		}
		fi.blocks = append(fi.blocks, cb)
	}
	if fn.Recover != nil {
		fi.recover = fn.Recover.Index
	}
	return fi
}

type compiler struct {
	P    *Program
	fi   *fnInfo
	regs map[ssa.Value]int
}

func (c *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		t := x.Type()
		if x.Value == nil {
			switch t.Underlying().(type) {
			case *types.Struct, *types.Array:
				return opnd{k: oZero, t: t, src: v}
			case *types.Tuple:
				return opnd{k: oZero, t: t, src: v}
			}
			if _, ok := t.(*types.TypeParam); ok {
				return opnd{k: oZero, t: t, src: v}
			}
			return opnd{k: oConst, v: zero(t), t: t, src: v}
		}
		return opnd{k: oConst, v: constVal(x), t: t, src: v}
	case *ssa.Global:
		return opnd{k: oGlobal, i: c.P.globalIndexLocked(x), g: x, src: v}
	case *ssa.Function, *ssa.Builtin:
		return opnd{k: oConst, v: x, t: v.Type(), src: v}
	}
	i, ok := c.regs[v]
	if !ok {
		panic(pathEnd{"unsupported", fmt.Sprintf("operand %T", v)})
	}
	return opnd{k: oReg, i: i, src: v}
}

func (P *Program) globalIndexLocked(g *ssa.Global) int { return P.globalIndex(g) }

func constVal(c *ssa.Const) value {
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		panic(pathEnd{"unsupported", "constant of " + c.Type().String()})
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		if b.Info()&types.IsUnsigned != 0 {
			return int64(c.Uint64())
		}
		return c.Int64()
	case b.Info()&types.IsFloat != 0:
		f := c.Float64()
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	}
	panic(pathEnd{"unsupported", "constant of " + c.Type().String()})
}

func (fr *frame) get(o *opnd) value {
	switch o.k {
	case oReg:
		return fr.regs[o.i]
	case oConst:
		return o.v
	case oZero:
		return zero(o.t)
	}
	return fr.in.global(o.g, o.i)
}

func (in *Interp) global(g *ssa.Global, i int) *value {
	if i < len(in.globals) {
		if p := in.globals[i]; p != nil {
			return p
		}
	}
	if i >= len(in.globals) {
		ng := make([]*value, i+64)
		copy(ng, in.globals)
		in.globals = ng
	}
	cell := new(value)
	*cell = zero(g.Type().(*types.Pointer).Elem())
	in.globals[i] = cell
	if special := in.specialGlobal(g, cell); special {
		return cell
	}
	if g.Pkg != nil && !in.P.isRepo(g.Pkg) && strings.HasPrefix(g.Name(), "init$") == false {
		in.initPkg(g.Pkg)
	}
	return cell
}

func (in *Interp) initPkg(p *ssa.Package) {
	if in.inited[p] != 0 {
		return
	}
	in.inited[p] = 1
	if deniedPkg(p.Pkg.Path()) || noInit[p.Pkg.Path()] {
		return
	}
	in.P.build(p)
	if f := p.Func("init"); f != nil {
		in.callRaw(f, nil, nil)
	}
	in.inited[p] = 2
}

// ---------------------------------------------------------------- calls

func (in *Interp) goPanic(msg string) {
	panic(targetPanic{iface{in.P.runtimeErrType(), msg}})
}

func (P *Program) runtimeErrType() types.Type {
	if P.tInt == nil {
		t := P.typeOf("runtime", "plainError")
		if t == nil {
			t = types.Typ[types.String]
		}
		P.tInt = t
	}
	return P.tInt
}

func (in *Interp) call(fr *frame, fn value, args []value) value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			in.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		return in.callFn(f, fr, args, nil)
	case *closure:
		if f == nil {
			in.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		return in.callFn(f.fn, fr, args, f.env)
	case *nativeFn:
		return f.f(in, fr, args)
	case *ssa.Builtin:
		panic(pathEnd{"unsupported", "builtin as value: " + f.Name()})
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("call of %T", fn)})
}

func (in *Interp) callFn(fn *ssa.Function, caller *frame, args []value, env []value) value {
	return in.callInfo(in.P.info(fn), caller, args, env)
}

func (in *Interp) callInfo(fi *fnInfo, caller *frame, args []value, env []value) value {
	if fi.stub != nil {
		return fi.stub(in, caller, args)
	}
	fn := fi.fn
	if fi.repo {
		in.called[fi.name] = true
	}
	fr := &frame{in: in, fi: fi, caller: caller}
	if caller != nil {
		fr.depth = caller.depth + 1
		fr.g = caller.g
		if fr.depth > 2000 {
			in.p.report("panic", "stack-overflow", fi.name, nil)
			panic(pathEnd{"violation", "stack overflow"})
		}
	}
	fr.regs = make([]value, fi.nregs)
	for i := range args {
		fr.regs[i] = args[i]
	}
	for i := range env {
		fr.regs[fi.nparams+i] = env[i]
	}
	if fn.Recover == nil && !hasDefer(fi) {
		in.runBlocks(fr, 0)
		return fr.result
	}
	in.runDeferring(fr)
	return fr.result
}

func hasDefer(fi *fnInfo) bool {
	return fi.fn.Recover != nil
}

func (in *Interp) runDeferring(fr *frame) {
	defer func() {
		if !fr.panicking {
			return
		}
		// panic reached this frame: deferred calls have run and recovered or not
	}()
	normal := false
	func() {
		defer func() {
			if normal {
				return
			}
			r := recover()
			if r == nil {
				return
			}
			if _, ok := r.(targetPanic); !ok {
				panic(r)
			}
			fr.panicking = true
			fr.panicVal = r
		}()
		in.runBlocks(fr, 0)
		normal = true
	}()
	if fr.panicking {
		in.runDefers(fr)
		if fr.panicking {
			panic(fr.panicVal)
		}
		if fr.fi.recover >= 0 {
			in.runBlocks(fr, fr.fi.recover)
		} else {
			fr.result = zeroResult(fr.fi.fn.Signature)
		}
	}
}

func zeroResult(s *types.Signature) value {
	switch s.Results().Len() {
	case 0:
		return nil
	}
	return zero(s.Results())
}

func (in *Interp) runDefers(fr *frame) {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		func() {
			ok := false
			defer func() {
				if ok {
					return
				}
				r := recover()
				if _, is := r.(targetPanic); !is {
					panic(r)
				}
				fr.panicking = true
				fr.panicVal = r
			}()
			in.callDeferred(fr, d)
			ok = true
		}()
	}
}

func (in *Interp) callDeferred(fr *frame, d *deferRec) {
	if b, ok := d.fn.(*ssa.Builtin); ok {
		in.builtin(fr, b, nil, d.args, nil)
		return
	}
	in.call(fr, d.fn, d.args)
}

const hangSteps = 6000000

func (in *Interp) runBlocks(fr *frame, start int) {
	fi := fr.fi
	cur := start
	prev := -1
	p := in.p
	for {
		b := &fi.blocks[cur]
		p.steps += b.n
		if p.steps > in.limit {
			in.hang(fr)
		}
		if len(b.phis) > 0 {
			k := -1
			for i, pr := range b.preds {
				if pr.Index == prev {
					k = i
					break
				}
			}
			if len(b.phis) == 1 {
				fr.regs[b.phis[0].reg] = fr.get(&b.phis[0].edges[k])
			} else {
				tmp := make([]value, len(b.phis))
				for i := range b.phis {
					tmp[i] = fr.get(&b.phis[i].edges[k])
				}
				for i := range b.phis {
					fr.regs[b.phis[i].reg] = tmp[i]
				}
			}
		}
		for _, s := range b.steps {
			if siteProf != nil {
				name := "?"
				if fi.fn != nil {
					name = fi.fn.String()
				}
				if fr.caller != nil && fr.caller.fi != nil && fr.caller.fi.fn != nil {
					name += " < " + fr.caller.fi.fn.String()
				}
				p.site = func() string { return name }
			}
			s(in, fr)
		}
		switch t := b.term.(type) {
		case *ssa.Jump:
			prev, cur = cur, b.succs[0]
		case *ssa.If:
			var c bool
			switch v := fr.get(&b.tOp[0]).(type) {
			case bool:
				c = v
			case *Form:
				c = p.branch(v)
			}
			prev = cur
			if c {
				cur = b.succs[0]
			} else {
				cur = b.succs[1]
			}
		case *ssa.Return:
			switch len(b.tOp) {
			case 0:
			case 1:
				fr.result = fr.get(&b.tOp[0])
			default:
				r := make(tuple, len(b.tOp))
				for i := range b.tOp {
					r[i] = fr.get(&b.tOp[i])
				}
				fr.result = r
			}
			return
		case *ssa.Panic:
			panic(targetPanic{fr.get(&b.tOp[0])})
		case nil:
			panic(pathEnd{"unsupported", "block without terminator"})
		default:
			panic(fmt.Sprintf("terminator %T", t))
		}
	}
}

func (in *Interp) hang(fr *frame) {
	var st []string
	for f := fr; f != nil && len(st) < 6; f = f.caller {
		st = append(st, f.fi.name)
	}
	in.p.report("hang", "no-termination", "step limit reached in "+strings.Join(st, " < "), nil)
	panic(pathEnd{"violation", "hang"})
}

// deref loads through a pointer.
func (in *Interp) deref(v value) *value {
	p, ok := v.(*value)
	if !ok {
		panic(pathEnd{"unsupported", fmt.Sprintf("dereference of %T", v)})
	}
	if p == nil {
		in.goPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	return p
}

// instr compiles one instruction.
func (c *compiler) instr(i ssa.Instruction) step {
	reg := -1
	if v, ok := i.(ssa.Value); ok {
		reg = c.regs[v]
	}
	switch x := i.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if at, ok := t.Underlying().(*types.Array); ok && x.Comment == "makeslice" && at.Len() > 512 {
			// make([]T, n, CONST): a huge capacity is represented lazily (512 elements at least)
			hi := at.Len()
			for _, r := range *x.Referrers() {
				if sl, ok := r.(*ssa.Slice); ok && sl.High != nil {
					if k, ok := sl.High.(*ssa.Const); ok {
						hi = k.Int64()
					}
				}
			}
			if hi < 512 {
				hi = 512
			}
			t = types.NewArray(at.Elem(), hi)
		}
		return func(in *Interp, fr *frame) {
			cell := new(value)
			*cell = zero(t)
			fr.regs[reg] = cell
		}
	case *ssa.Store:
		a, v := c.op(x.Addr), c.op(x.Val)
		return func(in *Interp, fr *frame) {
			storeVal(in.deref(fr.get(&a)), fr.get(&v))
		}
	case *ssa.UnOp:
		a := c.op(x.X)
		switch x.Op {
		case token.MUL:
			return func(in *Interp, fr *frame) {
				fr.regs[reg] = copyVal(*in.deref(fr.get(&a)))
			}
		case token.NOT:
			return func(in *Interp, fr *frame) { fr.regs[reg] = notV(fr.get(&a)) }
		case token.ARROW:
			commaOk := x.CommaOk
			et := x.X.Type().Underlying().(*types.Chan).Elem()
			return func(in *Interp, fr *frame) {
				v, ok := in.chanRecv(fr, fr.get(&a).(*chanV))
				if !ok {
					v = zero(et)
				}
				if commaOk {
					fr.regs[reg] = tuple{v, ok}
				} else {
					fr.regs[reg] = v
				}
			}
		case token.SUB:
			k := kindOf(x.Type())
			return func(in *Interp, fr *frame) { fr.regs[reg] = in.neg(fr.get(&a), k) }
		case token.XOR:
			k := kindOf(x.Type())
			return func(in *Interp, fr *frame) {
				fr.regs[reg] = in.binop(token.XOR, fr.get(&a), k.truncC(-1), k, k)
			}
		}
	case *ssa.BinOp:
		a, b := c.op(x.X), c.op(x.Y)
		op := x.Op
		switch op {
		case token.EQL:
			return func(in *Interp, fr *frame) { fr.regs[reg] = in.equalOp(fr.get(&a), fr.get(&b)) }
		case token.NEQ:
			return func(in *Interp, fr *frame) { fr.regs[reg] = notV(in.equalOp(fr.get(&a), fr.get(&b))) }
		}
		k, k2 := kindOf(x.X.Type()), kindOf(x.Y.Type())
		return func(in *Interp, fr *frame) { fr.regs[reg] = in.binop(op, fr.get(&a), fr.get(&b), k, k2) }
	case *ssa.Call:
		f := c.callee(&x.Call)
		return func(in *Interp, fr *frame) { fr.regs[reg] = f(in, fr) }
	case *ssa.Go:
		prep := c.prepare(&x.Call)
		return func(in *Interp, fr *frame) {
			fn, args := prep(in, fr)
			in.spawn(fr, fn, args)
		}
	case *ssa.Defer:
		prep := c.prepare(&x.Call)
		return func(in *Interp, fr *frame) {
			fn, args := prep(in, fr)
			fr.defers = &deferRec{fn: fn, args: args, next: fr.defers}
		}
	case *ssa.RunDefers:
		return func(in *Interp, fr *frame) {
			in.runDefers(fr)
			if fr.panicking {
				fr.panicking = false
				v := fr.panicVal
				panic(v)
			}
		}
	case *ssa.ChangeType, *ssa.ChangeInterface:
		a := c.op(*x.Operands(nil)[0])
		return func(in *Interp, fr *frame) { fr.regs[reg] = fr.get(&a) }
	case *ssa.Convert:
		a := c.op(x.X)
		from, to := x.X.Type(), x.Type()
		return func(in *Interp, fr *frame) { fr.regs[reg] = in.convert(fr.get(&a), from, to) }
	case *ssa.MultiConvert:
		a := c.op(x.X)
		from, to := x.X.Type(), x.Type()
		return func(in *Interp, fr *frame) { fr.regs[reg] = in.convert(fr.get(&a), from, to) }
	case *ssa.MakeInterface:
		a := c.op(x.X)
		t := x.X.Type()
		return func(in *Interp, fr *frame) { fr.regs[reg] = iface{t, copyVal(fr.get(&a))} }
	case *ssa.Extract:
		a := c.op(x.Tuple)
		idx := x.Index
		return func(in *Interp, fr *frame) { fr.regs[reg] = fr.get(&a).(tuple)[idx] }
	case *ssa.Field:
		a := c.op(x.X)
		idx := x.Field
		return func(in *Interp, fr *frame) { fr.regs[reg] = copyVal(fr.get(&a).(structV)[idx]) }
	case *ssa.FieldAddr:
		a := c.op(x.X)
		idx := x.Field
		return func(in *Interp, fr *frame) {
			p := in.deref(fr.get(&a))
			s, ok := (*p).(structV)
			if !ok {
				panic(pathEnd{"unsupported", fmt.Sprintf("field of %T in %s", *p, fr.fi.name)})
			}
			fr.regs[reg] = &s[idx]
		}
	case *ssa.IndexAddr:
		a, ix := c.op(x.X), c.op(x.Index)
		isArr := false
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			isArr = true
		}
		return func(in *Interp, fr *frame) {
			var s []value
			if isArr {
				s = []value((*in.deref(fr.get(&a))).(arrayV))
			} else {
				s = fr.get(&a).([]value)
			}
			i := in.index(fr.get(&ix), len(s))
			fr.regs[reg] = &s[i]
		}
	case *ssa.Index:
		a, ix := c.op(x.X), c.op(x.Index)
		return func(in *Interp, fr *frame) {
			switch s := fr.get(&a).(type) {
			case arrayV:
				fr.regs[reg] = copyVal(s[in.index(fr.get(&ix), len(s))])
			case string:
				fr.regs[reg] = int64(s[in.index(fr.get(&ix), len(s))])
			case *SStr:
				in.needBytes(s)
				fr.regs[reg] = s.els[in.index(fr.get(&ix), len(s.els))]
			default:
				panic(pathEnd{"unsupported", fmt.Sprintf("index of %T", s)})
			}
		}
	case *ssa.Lookup:
		a, ix := c.op(x.X), c.op(x.Index)
		commaOk := x.CommaOk
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			et := mt.Elem()
			return func(in *Interp, fr *frame) {
				k := fr.get(&ix)
				in.checkHashable(k)
				e := in.mapFind(fr.get(&a).(*mapV), k)
				var v value
				if e != nil {
					v = copyVal(e.v)
				} else {
					v = zero(et)
				}
				if commaOk {
					fr.regs[reg] = tuple{v, e != nil}
				} else {
					fr.regs[reg] = v
				}
			}
		}
		return func(in *Interp, fr *frame) {
			switch s := fr.get(&a).(type) {
			case string:
				fr.regs[reg] = int64(s[in.index(fr.get(&ix), len(s))])
			case *SStr:
				in.needBytes(s)
				fr.regs[reg] = s.els[in.index(fr.get(&ix), len(s.els))]
			}
		}
	case *ssa.MapUpdate:
		m, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		return func(in *Interp, fr *frame) {
			kk := fr.get(&k)
			in.checkHashable(kk)
			in.mapSet(fr.get(&m).(*mapV), kk, fr.get(&v))
		}
	case *ssa.MakeMap:
		return func(in *Interp, fr *frame) { fr.regs[reg] = newMap() }
	case *ssa.MakeChan:
		sz := c.op(x.Size)
		return func(in *Interp, fr *frame) {
			fr.regs[reg] = &chanV{cap: int(in.concInt(fr.get(&sz)))}
		}
	case *ssa.MakeSlice:
		l, cp := c.op(x.Len), c.op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		return func(in *Interp, fr *frame) {
			n := in.concInt(fr.get(&l))
			m := in.concInt(fr.get(&cp))
			if n < 0 || n > 1<<40 {
				in.goPanic("runtime error: makeslice: len out of range")
			}
			if m < n {
				in.goPanic("runtime error: makeslice: cap out of range")
			}
			if n > 1<<22 {
				panic(pathEnd{"unsupported", "huge slice"})
			}
			if m > n && m > 4096 {
				m = n
				if m < 4096 {
					m = 4096
				}
			}
			s := make([]value, n, m)
			for i := range s {
				s[i] = zero(et)
			}
			fr.regs[reg] = s
		}
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []opnd
		for _, b := range x.Bindings {
			bs = append(bs, c.op(b))
		}
		return func(in *Interp, fr *frame) {
			env := make([]value, len(bs))
			for i := range bs {
				env[i] = fr.get(&bs[i])
			}
			fr.regs[reg] = &closure{fn, env}
		}
	case *ssa.Slice:
		a := c.op(x.X)
		var lo, hi, mx *opnd
		mk := func(v ssa.Value) *opnd {
			if v == nil {
				return nil
			}
			o := c.op(v)
			return &o
		}
		lo, hi, mx = mk(x.Low), mk(x.High), mk(x.Max)
		return func(in *Interp, fr *frame) {
			g := func(o *opnd, d int) int {
				if o == nil {
					return d
				}
				return int(in.concInt(fr.get(o)))
			}
			v := fr.get(&a)
			fr.regs[reg] = in.slice(v, lo != nil, hi != nil, mx != nil, g(lo, 0), g(hi, -1), g(mx, -1))
		}
	case *ssa.SliceToArrayPointer:
		a := c.op(x.X)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return func(in *Interp, fr *frame) {
			s := fr.get(&a).([]value)
			if int64(len(s)) < n {
				in.goPanic("runtime error: cannot convert slice to array pointer")
			}
			cell := new(value)
			*cell = arrayV(s[:n:n])
			fr.regs[reg] = cell
		}
	case *ssa.TypeAssert:
		a := c.op(x.X)
		t := x.AssertedType
		commaOk := x.CommaOk
		it, isI := t.Underlying().(*types.Interface)
		return func(in *Interp, fr *frame) {
			v, ok := fr.get(&a).(iface)
			if !ok {
				panic(pathEnd{"unsupported", "type assertion on non-interface"})
			}
			var good bool
			if v.t != nil {
				if isI {
					good = types.Implements(v.t, it)
				} else {
					good = v.t == t || types.Identical(v.t, t)
				}
			}
			var r value
			if good {
				if isI {
					r = v
				} else {
					r = copyVal(v.v)
				}
			} else {
				if !commaOk {
					dt := "nil"
					if v.t != nil {
						dt = v.t.String()
					}
					in.goPanic("interface conversion: interface is " + dt + ", not " + t.String())
				}
				r = zero(t)
			}
			if commaOk {
				fr.regs[reg] = tuple{r, good}
			} else {
				fr.regs[reg] = r
			}
		}
	case *ssa.Range:
		a := c.op(x.X)
		return func(in *Interp, fr *frame) { fr.regs[reg] = in.rangeIter(fr.get(&a)) }
	case *ssa.Next:
		a := c.op(x.Iter)
		tt := x.Type().(*types.Tuple)
		return func(in *Interp, fr *frame) {
			fr.regs[reg] = fr.get(&a).(iterator).next(in, tt)
		}
	case *ssa.Send:
		ch, v := c.op(x.Chan), c.op(x.X)
		return func(in *Interp, fr *frame) {
			in.chanSend(fr, fr.get(&ch).(*chanV), copyVal(fr.get(&v)))
		}
	case *ssa.Select:
		return c.selectInstr(x, reg)
	}
	s := i.String()
	return func(in *Interp, fr *frame) {
		panic(pathEnd{"unsupported", fmt.Sprintf("instruction %T %s", i, s)})
	}
}

func (in *Interp) checkHashable(k value) {
	if i, ok := k.(iface); ok && i.t != nil {
		switch i.t.Underlying().(type) {
		case *types.Map, *types.Slice, *types.Signature:
			in.goPanic("runtime error: hash of unhashable type " + i.t.String())
		}
	}
}

// callee compiles a call into a function returning the result.
func (c *compiler) callee(cc *ssa.CallCommon) func(in *Interp, fr *frame) value {
	args := make([]opnd, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = c.op(a)
	}
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		m := cc.Method
		return func(in *Interp, fr *frame) value {
			r := fr.get(&recv).(iface)
			if r.t == nil {
				in.goPanic("runtime error: invalid memory address or nil pointer dereference")
			}
			fn := in.P.lookupMethod(r.t, m)
			if fn == nil {
				panic(pathEnd{"unsupported", "method " + m.Name() + " of " + r.t.String()})
			}
			av := make([]value, len(args)+1)
			av[0] = copyVal(r.v)
			for i := range args {
				av[i+1] = copyVal(fr.get(&args[i]))
			}
			return in.callFn(fn, fr, av, nil)
		}
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		var ts []types.Type
		for _, a := range cc.Args {
			ts = append(ts, a.Type())
		}
		return func(in *Interp, fr *frame) value {
			av := make([]value, len(args))
			for i := range args {
				av[i] = fr.get(&args[i])
			}
			return in.builtin(fr, f, ts, av, cc)
		}
	case *ssa.Function:
		var cached atomic.Pointer[fnInfo]
		return func(in *Interp, fr *frame) value {
			av := make([]value, len(args))
			for i := range args {
				av[i] = fr.get(&args[i])
			}
			fi := cached.Load()
			if fi == nil {
				fi = in.P.info(f)
				cached.Store(fi)
			}
			return in.callInfo(fi, fr, av, nil)
		}
	}
	fo := c.op(cc.Value)
	return func(in *Interp, fr *frame) value {
		fn := fr.get(&fo)
		av := make([]value, len(args))
		for i := range args {
			av[i] = fr.get(&args[i])
		}
		return in.call(fr, fn, av)
	}
}

// prepare evaluates callee and arguments for go and defer.
func (c *compiler) prepare(cc *ssa.CallCommon) func(in *Interp, fr *frame) (value, []value) {
	args := make([]opnd, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = c.op(a)
	}
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		m := cc.Method
		return func(in *Interp, fr *frame) (value, []value) {
			r := fr.get(&recv).(iface)
			if r.t == nil {
				in.goPanic("runtime error: invalid memory address or nil pointer dereference")
			}
			fn := in.P.lookupMethod(r.t, m)
			av := make([]value, len(args)+1)
			av[0] = copyVal(r.v)
			for i := range args {
				av[i+1] = copyVal(fr.get(&args[i]))
			}
			return fn, av
		}
	}
	fo := c.op(cc.Value)
	return func(in *Interp, fr *frame) (value, []value) {
		av := make([]value, len(args))
		for i := range args {
			av[i] = copyVal(fr.get(&args[i]))
		}
		return fr.get(&fo), av
	}
}

func (in *Interp) concInt(v value) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case *Lin:
		r := in.p.concretize(x)
		return r.Num().Int64()
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("integer expected, got %T", v)})
}

func (in *Interp) index(v value, n int) int {
	switch x := v.(type) {
	case int64:
		if x < 0 || x >= int64(n) {
			in.goPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", x, n))
		}
		return int(x)
	case *Lin:
		inb := andV(mkCmp(x, relGE), mkCmp(linSub(x, linConst(ratInt(int64(n)))), relLT))
		if !in.p.branch(inb) {
			in.goPanic(fmt.Sprintf("runtime error: index out of range with length %d", n))
		}
		return int(in.concInt(x))
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("index %T", v)})
}

func (in *Interp) slice(v value, hasLo, hasHi, hasMax bool, lo, hi, mx int) value {
	switch s := v.(type) {
	case string:
		if !hasHi {
			hi = len(s)
		}
		if lo < 0 || hi < lo || hi > len(s) {
			in.goPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with length %d", lo, hi, len(s)))
		}
		return s[lo:hi]
	case *SStr:
		in.needBytes(s)
		if !hasHi {
			hi = len(s.els)
		}
		if lo < 0 || hi < lo || hi > len(s.els) {
			in.goPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with length %d", lo, hi, len(s.els)))
		}
		return mkStr(s.els[lo:hi])
	case *value:
		if s == nil {
			in.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		return in.sliceV([]value((*s).(arrayV)), hasHi, hasMax, lo, hi, mx)
	case []value:
		return in.sliceV(s, hasHi, hasMax, lo, hi, mx)
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("slice of %T", v)})
}

func (in *Interp) sliceV(s []value, hasHi, hasMax bool, lo, hi, mx int) value {
	if !hasHi {
		hi = len(s)
	}
	if !hasMax {
		mx = cap(s)
	}
	if lo < 0 || hi < lo || mx < hi || mx > cap(s) {
		in.goPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with capacity %d", lo, hi, cap(s)))
	}
	return s[lo:hi:mx]
}

// ---------------------------------------------------------------- iterators

type iterator interface {
	next(in *Interp, tt *types.Tuple) value
}

type mapIter struct {
	m    *mapV
	i    int
	rest []*mapEntry // entries still to visit when all orders are explored
	all  bool
	n    int
}

type strIter struct {
	s value
	i int
}

func (in *Interp) rangeIter(v value) iterator {
	switch x := v.(type) {
	case *mapV:
		it := &mapIter{m: x}
		if x != nil {
			live := 0
			for _, e := range x.ents {
				if !e.deleted {
					live++
				}
			}
			if in.hn != nil && in.hn.MapOrder && live > 1 && live <= 4 {
				it.all = true
				in.p.mapOrd = true
				for _, e := range x.ents {
					if !e.deleted {
						it.rest = append(it.rest, e)
					}
				}
			}
			x.iters++
		}
		return it
	case string, *SStr:
		return &strIter{s: x}
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("range over %T", v)})
}

func (it *mapIter) next(in *Interp, tt *types.Tuple) value {
	if it.m == nil {
		return tuple{false, nil, nil}
	}
	if it.all {
		for {
			// drop deleted entries
			l := it.rest[:0:0]
			for _, e := range it.rest {
				if !e.deleted {
					l = append(l, e)
				}
			}
			it.rest = l
			if len(l) == 0 {
				it.m.iters--
				return tuple{false, nil, nil}
			}
			k := in.p.choose(len(l))
			e := l[k]
			it.rest = append(append([]*mapEntry{}, l[:k]...), l[k+1:]...)
			return tuple{true, copyVal(e.k), copyVal(e.v)}
		}
	}
	for it.i < len(it.m.ents) {
		e := it.m.ents[it.i]
		it.i++
		if !e.deleted {
			return tuple{true, copyVal(e.k), copyVal(e.v)}
		}
	}
	it.m.iters--
	return tuple{false, nil, nil}
}

func (it *strIter) next(in *Interp, tt *types.Tuple) value {
	s, ok := it.s.(string)
	if !ok {
		ss := it.s.(*SStr)
		for _, e := range ss.els {
			if _, isT := e.(*Tok); isT {
				s = in.concStr(it.s)
				it.s = s
				ok = true
				break
			}
		}
		if !ok {
			if it.i >= len(ss.els) {
				return tuple{false, int64(0), int64(0)}
			}
			e := ss.els[it.i]
			i := it.i
			it.i++
			if l, isL := e.(*Lin); isL {
				if !in.p.branch(mkCmp(linSub(l, linConst(ratInt(128))), relLT)) {
					panic(pathEnd{"unsupported", "range over symbolic non-ASCII string"})
				}
			}
			return tuple{true, int64(i), e}
		}
	}
	if it.i >= len(s) {
		return tuple{false, int64(0), int64(0)}
	}
	for j, r := range s[it.i:] {
		_ = j
		i := it.i
		it.i += len(string(r))
		if r == 0xFFFD {
			it.i = i + 1
		}
		return tuple{true, int64(i), int64(r)}
	}
	return tuple{false, int64(0), int64(0)}
}

// ---------------------------------------------------------------- running a harness

func (in *Interp) runHarness(h *Harness) (end pathEnd) {
	in.hn = h
	in.limit = hangSteps
	if h.StepLimit > 0 {
		in.limit = h.StepLimit
	}
	defer func() {
		in.sched.killAll()
	}()
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		end = in.classify(r)
	}()
	end = pathEnd{"ok", ""}
	main := &gor{}
	in.sched.init(in, main)
	fr := &frame{in: in, fi: &fnInfo{name: "harness"}, g: main}
	for _, p := range in.P.initOrd {
		if in.inited[p] == 0 {
			in.inited[p] = 1
			in.P.build(p)
			in.initRepoPkg(p, fr)
			in.inited[p] = 2
		}
	}
	fn := in.P.main.Func(h.Func)
	if fn == nil {
		panic(pathEnd{"unsupported", "no harness function " + h.Func})
	}
	in.callFn(fn, fr, nil, nil)
	return
}

func (in *Interp) initRepoPkg(p *ssa.Package, fr *frame) {
	if strings.HasSuffix(p.Pkg.Path(), "Service") {
		return
	}
	if f := p.Func("init"); f != nil {
		in.callFn(f, fr, nil, nil)
	}
}

func (in *Interp) classify(r interface{}) pathEnd {
	switch x := r.(type) {
	case pathEnd:
		return x
	case targetPanic:
		msg := in.panicText(x.v)
		in.p.report("panic", panicLabel(msg), msg, nil)
		return pathEnd{"violation", "panic: " + msg}
	case goexit:
		return pathEnd{"violation", "exit"}
	case solverError:
		panic(r)
	case runtime.Error:
		if in.hn.verbose {
			buf := make([]byte, 1<<14)
			n := runtime.Stack(buf, false)
			fmt.Println(string(buf[:n]))
		}
		return pathEnd{"unsupported", "engine: " + x.Error()}
	}
	panic(r)
}

type goexit struct{}

func panicLabel(msg string) string {
	if i := strings.IndexAny(msg, "[0123456789"); i > 0 {
		msg = msg[:i]
	}
	if len(msg) > 60 {
		msg = msg[:60]
	}
	return strings.TrimSpace(msg)
}

func (in *Interp) panicText(v value) string {
	i, ok := v.(iface)
	if !ok {
		return fmt.Sprint(v)
	}
	if i.t == nil {
		return "nil"
	}
	if s, ok := i.v.(string); ok {
		return s
	}
	defer func() { recover() }()
	return in.fmtValue(nil, i, 'v', "%v")
}

var _ = big.NewRat
