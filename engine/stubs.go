package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"path"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- which code is interpreted

func isStdPkg(p string) bool {
	if p == "" {
		return true
	}
	first := p
	if i := strings.IndexByte(p, '/'); i >= 0 {
		first = p[:i]
	}
	return !strings.Contains(first, ".")
}

// deniedPkg lists packages whose calls have no effect the properties can see (logging, configuration, plotting).
func deniedPkg(p string) bool {
	for _, x := range []string{"go.uber.org/", "github.com/", "google.golang.org/", "gopkg.in/", "golang.org/x/net", "golang.org/x/sys", "golang.org/x/crypto"} {
		if strings.HasPrefix(p, x) {
			return true
		}
	}
	return p == "runtime/pprof" || p == "log" || p == "runtime" || p == "net" || strings.HasPrefix(p, "net/")
}

// packages whose variables keep their zero value instead of running the package initialiser
var noInit = map[string]bool{"time": true, "os": true, "unicode": true, "reflect": true, "syscall": true, "fmt": true,
	"math/rand": true, "encoding/json": true, "context": true, "sync": true, "io/fs": true, "internal/poll": true,
	"internal/oserror": true, "compress/flate": true, "hash/crc32": true}

func (P *Program) rawInfo(fn *ssa.Function) *fnInfo {
	P.mu.RLock()
	fi := P.raw[fn]
	P.mu.RUnlock()
	if fi != nil {
		return fi
	}
	fi = P.compileRaw(fn)
	P.mu.Lock()
	P.raw[fn] = fi
	P.mu.Unlock()
	return fi
}

func (in *Interp) callRaw(fn *ssa.Function, fr *frame, args []value) value {
	return in.callInfo(in.P.rawInfo(fn), fr, args, nil)
}

func findStub(P *Program, fn *ssa.Function, fi *fnInfo, pkgPath string) stubFn {
	name := fi.name
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if st, ok := stubTable[name]; ok {
		return st
	}
	if fn.Pkg == P.main && fn.Parent() == nil && fn.Signature.Recv() == nil {
		if st, ok := vapiTable[fn.Name()]; ok {
			return st
		}
	}
	if fi.repo {
		if strings.HasSuffix(pkgPath, "Service") && fn.Name() != "init" {
			return zeroStub(fn)
		}
		return nil
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Parent() == nil {
		return func(in *Interp, fr *frame, args []value) value { return nil }
	}
	if deniedPkg(pkgPath) {
		return zeroStub(fn)
	}
	switch pkgPath {
	case "fmt":
		return func(in *Interp, fr *frame, args []value) value {
			panic(pathEnd{"unsupported", "call of " + name})
		}
	case "math":
		if fn.Signature.Recv() == nil && fn.Parent() == nil {
			if f := mathNative(fn); f != nil {
				return f
			}
		}
	}
	return nil
}

func zeroStub(fn *ssa.Function) stubFn {
	sig := fn.Signature
	ptr := false
	if r := sig.Recv(); r != nil {
		_, ptr = r.Type().Underlying().(*types.Pointer)
	}
	name := fn.String()
	variadic := sig.Variadic()
	_ = variadic
	fatal := strings.HasSuffix(name, "Logger).Fatal") || strings.HasSuffix(name, "Logger).Panic") || strings.HasSuffix(name, "Logger).DPanic")
	return func(in *Interp, fr *frame, args []value) value {
		if ptr {
			if p, ok := args[0].(*value); ok && p == nil {
				in.goPanic("runtime error: invalid memory address or nil pointer dereference")
			}
		}
		if fatal {
			in.exit(1, name)
		}
		return zeroResult(sig)
	}
}

func (in *Interp) exit(code int64, what string) {
	in.p.report("exit", "exit", fmt.Sprintf("the program exits with code %d in %s", code, what), nil)
	panic(pathEnd{"violation", "exit"})
}

func (in *Interp) methodNamed(t types.Type, name string) *ssa.Function {
	k := methodKey2{t, name}
	if f, ok := in.P.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	in.P.bmu.Lock()
	var f *ssa.Function
	if sel := in.P.prog.MethodSets.MethodSet(t).Lookup(nil, name); sel != nil {
		f = in.P.prog.MethodValue(sel)
	}
	in.P.bmu.Unlock()
	in.P.methods.Store(k, f)
	return f
}

type methodKey2 struct {
	t types.Type
	n string
}

// ---------------------------------------------------------------- helpers

func cellOf(v value) *value {
	c := new(value)
	*c = v
	return c
}

// mkErr makes an error value.
func (in *Interp) mkErr(msg string) iface {
	t := in.P.typeOf("errors", "errorString")
	return iface{types.NewPointer(t), cellOf(structV{msg})}
}

func (in *Interp) namedErr(name, msg string) iface {
	if in.errs == nil {
		in.errs = map[string]iface{}
	}
	if e, ok := in.errs[name]; ok {
		return e
	}
	e := in.mkErr(msg)
	in.errs[name] = e
	return e
}

var nilIface = iface{}

func (in *Interp) ioEOF() iface {
	p := in.P.pkgs["io"]
	g := p.Var("EOF")
	return (*in.global(g, in.P.globalIndex(g))).(iface)
}

func (in *Interp) globalErr(pkg, name string) iface {
	p := in.P.pkgs[pkg]
	if p == nil || p.Var(name) == nil {
		return in.namedErr(pkg+"."+name, pkg+": "+name)
	}
	g := p.Var(name)
	return (*in.global(g, in.P.globalIndex(g))).(iface)
}

// callMethod calls a method of an interface value.
func (in *Interp) callMethod(fr *frame, recv iface, name string, args ...value) value {
	if recv.t == nil {
		in.goPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	f := in.methodNamed(recv.t, name)
	if f == nil {
		panic(pathEnd{"unsupported", "method " + name + " of " + recv.t.String()})
	}
	return in.callFn(f, fr, append([]value{copyVal(recv.v)}, args...), nil)
}

func ifaces(v value) []value {
	s, _ := v.([]value)
	return s
}

// specialGlobal sets up variables of packages that are not initialised.
func (in *Interp) specialGlobal(g *ssa.Global, cell *value) bool {
	if g.Pkg == nil {
		return false
	}
	switch g.Pkg.Pkg.Path() + "." + g.Name() {
	case "time.UTC", "time.Local":
		loc := map[string]string{"UTC": "utcLoc", "Local": "localLoc"}[g.Name()]
		lg := g.Pkg.Var(loc)
		*cell = in.global(lg, in.P.globalIndex(lg))
		return true
	case "time.utcLoc":
		(*cell).(structV)[0] = "UTC"
		return true
	case "time.localLoc":
		(*cell).(structV)[0] = "Local"
		return true
	case "os.ErrNotExist", "io/fs.ErrNotExist", "internal/oserror.ErrNotExist":
		*cell = in.namedErr("notexist", "file does not exist")
		return true
	case "os.ErrExist", "io/fs.ErrExist", "internal/oserror.ErrExist":
		*cell = in.namedErr("exist", "file already exists")
		return true
	case "os.ErrClosed", "io/fs.ErrClosed":
		*cell = in.namedErr("closed", "file already closed")
		return true
	case "os.Stdout", "os.Stderr", "os.Stdin":
		*cell = in.newFile(&fileObj{name: "/dev/" + strings.ToLower(g.Name()), null: true})
		return true
	case "os.Args":
		*cell = []value{"simulator"}
		return true
	case "math/rand.globalRandGenerator":
		return true
	}
	return false
}

// ---------------------------------------------------------------- math

func mathNative(fn *ssa.Function) stubFn {
	n := fn.Name()
	f1 := map[string]func(float64) float64{
		"Abs": math.Abs, "Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Exp": math.Exp,
		"Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Round": math.Round, "Tanh": math.Tanh, "Exp2": math.Exp2,
		"Log1p": math.Log1p, "Cbrt": math.Cbrt, "RoundToEven": math.RoundToEven,
	}
	f2 := map[string]func(a, b float64) float64{"Pow": math.Pow, "Min": math.Min, "Max": math.Max, "Mod": math.Mod, "Hypot": math.Hypot}
	if f, ok := f1[n]; ok {
		return func(in *Interp, fr *frame, args []value) value {
			if x, ok := args[0].(float64); ok {
				return f(x)
			}
			l := args[0].(*Lin)
			switch n {
			case "Abs":
				if in.p.branch(mkCmp(l, relGE)) {
					return l
				}
				return linScale(l, ratMinusOne)
			case "Floor":
				return simp(in.floorDiv(l, ratOne), true)
			case "Ceil":
				return simp(linScale(in.floorDiv(linScale(l, ratMinusOne), ratOne), ratMinusOne), true)
			case "Trunc":
				if in.p.branch(mkCmp(l, relGE)) {
					return simp(in.floorDiv(l, ratOne), true)
				}
				return simp(linScale(in.floorDiv(linScale(l, ratMinusOne), ratOne), ratMinusOne), true)
			case "Round":
				half := linConst(big.NewRat(1, 2))
				if in.p.branch(mkCmp(l, relGE)) {
					return simp(in.floorDiv(linAdd(l, half), ratOne), true)
				}
				return simp(linScale(in.floorDiv(linAdd(linScale(l, ratMinusOne), half), ratOne), ratMinusOne), true)
			case "Sqrt":
				return in.sqrtLin(l)
			}
			return f(floatOfRat(in.p.concretize(l)))
		}
	}
	if f, ok := f2[n]; ok {
		return func(in *Interp, fr *frame, args []value) value {
			x, ok1 := args[0].(float64)
			y, ok2 := args[1].(float64)
			if ok1 && ok2 {
				return f(x, y)
			}
			switch n {
			case "Min", "Max":
				if ok1 && !isFinite(x) || ok2 && !isFinite(y) {
					if ok1 && math.IsNaN(x) || ok2 && math.IsNaN(y) {
						return math.NaN()
					}
					inf, other := x, args[1]
					if !ok1 || isFinite(x) {
						inf, other = y, args[0]
					}
					if (n == "Min") == (inf > 0) {
						return other
					}
					return inf
				}
				a, b := fltLin(args[0]), fltLin(args[1])
				le := in.p.branch(mkCmp(linSub(a, b), relLE))
				if le == (n == "Min") {
					return args[0]
				}
				return args[1]
			case "Pow":
				if ok2 {
					switch y {
					case 0:
						return float64(1)
					case 1:
						return args[0]
					}
					if y == math.Trunc(y) && y > 1 && y <= 4 {
						r := args[0]
						k := kind{isFloat: true, bits: 64}
						for i := 1; i < int(y); i++ {
							r = in.floatSym(tokMUL, r, args[0], k)
						}
						return r
					}
				}
			}
			cx := x
			if !ok1 {
				cx = floatOfRat(in.p.concretize(args[0].(*Lin)))
			}
			cy := y
			if !ok2 {
				cy = floatOfRat(in.p.concretize(args[1].(*Lin)))
			}
			return f(cx, cy)
		}
	}
	switch n {
	case "IsNaN":
		return func(in *Interp, fr *frame, args []value) value {
			if x, ok := args[0].(float64); ok {
				return math.IsNaN(x)
			}
			return false
		}
	case "IsInf":
		return func(in *Interp, fr *frame, args []value) value {
			if x, ok := args[0].(float64); ok {
				return math.IsInf(x, int(in.concInt(args[1])))
			}
			return false
		}
	case "NaN":
		return func(in *Interp, fr *frame, args []value) value { return math.NaN() }
	case "Inf":
		return func(in *Interp, fr *frame, args []value) value { return math.Inf(int(in.concInt(args[0]))) }
	case "Float64bits":
		return func(in *Interp, fr *frame, args []value) value {
			if l, ok := args[0].(*Lin); ok {
				return int64(math.Float64bits(floatOfRat(in.p.concretize(l))))
			}
			return int64(math.Float64bits(args[0].(float64)))
		}
	case "Float64frombits":
		return func(in *Interp, fr *frame, args []value) value {
			return math.Float64frombits(uint64(in.concInt(args[0])))
		}
	case "Modf":
		return func(in *Interp, fr *frame, args []value) value {
			if x, ok := args[0].(float64); ok {
				a, b := math.Modf(x)
				return tuple{a, b}
			}
			l := args[0].(*Lin)
			var q *Lin
			if in.p.branch(mkCmp(l, relGE)) {
				q = in.floorDiv(l, ratOne)
			} else {
				q = linScale(in.floorDiv(linScale(l, ratMinusOne), ratOne), ratMinusOne)
			}
			return tuple{simp(q, true), simp(linSub(l, q), true)}
		}
	}
	return nil
}

func (in *Interp) sqrtLin(l *Lin) value {
	if !in.p.branch(mkCmp(l, relGE)) {
		return math.NaN()
	}
	_, hi := l.bounds()
	h := ratOfFloat(math.Sqrt(floatOfRat(hi))*1.0001 + 1)
	s := smtOf(l, true)
	r := in.nonlinear(false, ratZero, h, "sqrt"+s, func(m Model) *big.Rat {
		x, ok := evalLin(l, m)
		if !ok || x.Sign() < 0 {
			return nil
		}
		return ratOfFloat(math.Sqrt(floatOfRat(x)))
	}, func(v string) string {
		if in.hn.Coarse { // only its bounds, and that equal arguments have equal roots
			return "true"
		}
		return "(= (* " + v + " " + v + ") " + s + ")"
	})
	return r
}

// ---------------------------------------------------------------- byte searching over symbolic bytes

func (in *Interp) eqByte(e value, c byte) bool {
	switch x := e.(type) {
	case int64:
		return byte(x) == c
	case *Lin:
		return in.p.branch(mkCmp(linSub(x, linConst(ratInt(int64(c)))), relEQ))
	case *Tok:
		if tokMayContain(x, c) {
			panic(pathEnd{"unsupported", "searching inside a symbolic number"})
		}
		return false
	case *gzBlob:
		return false
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("byte %T", e)})
}

// startsPlain: a symbolic number or time that never begins with a space.
func startsPlain(e value) bool {
	t, ok := e.(*Tok)
	if !ok {
		return false
	}
	switch t.verb {
	case "%d", "%v", "%g", "%f", "json", "time", "timestr":
		return true
	}
	return verbDecimals(t.verb) >= 0
}

func tokMayContain(t *Tok, c byte) bool {
	if strings.HasPrefix(t.verb, "timestr:") {
		return c >= ' ' && c < 127
	}
	if strings.HasPrefix(t.verb, "time") {
		return strings.IndexByte("0123456789-T:Z+ UTC.", c) >= 0
	}
	return strings.IndexByte("0123456789+-.eE", c) >= 0
}

func indexByte(in *Interp, els []value, c byte) value {
	for i, e := range els {
		if in.eqByte(e, c) {
			return int64(i)
		}
	}
	return int64(-1)
}

func (in *Interp) indexSub(els, sub []value) int {
	for i := 0; i+len(sub) <= len(els); i++ {
		ok := true
		for j := range sub {
			if x, is := sub[j].(int64); is {
				if !in.eqByte(els[i+j], byte(x)) {
					ok = false
					break
				}
			} else if !in.p.branch(in.strEqual(mkStr(els[i+j:i+j+1]), mkStr(sub[j:j+1]))) {
				ok = false
				break
			}
		}
		if ok {
			return i
		}
	}
	return -1
}

func concEls(in *Interp, v value) string {
	if s, ok := v.([]value); ok {
		return in.concStr(mkStr(s))
	}
	return in.concStr(v)
}

// ---------------------------------------------------------------- the table

var stubTable map[string]stubFn
var tokMUL = mulToken

func allConc(args []value) bool {
	for _, a := range args {
		switch a.(type) {
		case int64, float64, string, bool:
		default:
			return false
		}
	}
	return true
}

func symTok(v value) (*Tok, bool) {
	s, ok := v.(*SStr)
	if !ok || len(s.els) != 1 {
		return nil, false
	}
	t, ok := s.els[0].(*Tok)
	return t, ok
}

func init() {
	nop := func(in *Interp, fr *frame, args []value) value { return nil }
	str := func(f func(in *Interp, fr *frame, a []value) value) stubFn { return f }
	T := map[string]stubFn{}
	stubTable = T

	// fmt
	printRes := func(in *Interp, fr *frame, args []value) value { return tuple{int64(0), nilIface} }
	T["fmt.Println"], T["fmt.Printf"], T["fmt.Print"] = printRes, printRes, printRes
	T["fmt.Sprintf"] = func(in *Interp, fr *frame, a []value) value {
		return in.sprintf(fr, in.concStr(a[0]), ifaces(a[1]))
	}
	T["fmt.Sprint"] = func(in *Interp, fr *frame, a []value) value { return in.sprint(fr, ifaces(a[0]), false) }
	T["fmt.Sprintln"] = func(in *Interp, fr *frame, a []value) value { return in.sprint(fr, ifaces(a[0]), true) }
	T["fmt.Errorf"] = func(in *Interp, fr *frame, a []value) value {
		f := in.concStr(a[0])
		msg := in.sprintf(fr, f, ifaces(a[1]))
		if strings.Contains(f, "%w") {
			n := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] == '%' && f[i+1] != '%' {
					if f[i+1] == 'w' && n < len(ifaces(a[1])) {
						t := in.P.typeOf("fmt", "wrapError")
						return iface{types.NewPointer(t), cellOf(structV{msg, ifaces(a[1])[n]})}
					}
					n++
				}
			}
		}
		t := in.P.typeOf("errors", "errorString")
		return iface{types.NewPointer(t), cellOf(structV{msg})}
	}
	T["(*fmt.wrapError).Error"] = func(in *Interp, fr *frame, a []value) value {
		return (*in.deref(a[0])).(structV)[0]
	}
	T["(*fmt.wrapError).Unwrap"] = func(in *Interp, fr *frame, a []value) value {
		return (*in.deref(a[0])).(structV)[1]
	}
	fwrite := func(in *Interp, fr *frame, w iface, s value) value {
		els := append([]value(nil), strEls(s)...)
		return in.callMethod(fr, w, "Write", els)
	}
	T["fmt.Fprintf"] = func(in *Interp, fr *frame, a []value) value {
		return fwrite(in, fr, a[0].(iface), in.sprintf(fr, in.concStr(a[1]), ifaces(a[2])))
	}
	T["fmt.Fprintln"] = func(in *Interp, fr *frame, a []value) value {
		return fwrite(in, fr, a[0].(iface), in.sprint(fr, ifaces(a[1]), true))
	}
	T["fmt.Fprint"] = func(in *Interp, fr *frame, a []value) value {
		return fwrite(in, fr, a[0].(iface), in.sprint(fr, ifaces(a[1]), false))
	}

	// log, os.Exit
	for _, n := range []string{"Fatal", "Fatalf", "Fatalln"} {
		n := n
		T["log."+n] = func(in *Interp, fr *frame, a []value) value { in.exit(1, "log."+n); return nil }
	}
	for _, n := range []string{"Panic", "Panicf", "Panicln"} {
		n := n
		T["log."+n] = func(in *Interp, fr *frame, a []value) value {
			panic(targetPanic{iface{types.Typ[types.String], "log." + n}})
		}
	}
	T["os.Exit"] = func(in *Interp, fr *frame, a []value) value { in.exit(in.concInt(a[0]), "os.Exit"); return nil }

	// zap
	zl := func(in *Interp, fr *frame, a []value) value {
		if in.zapL == nil {
			in.zapL = cellOf(structV{})
		}
		return in.zapL
	}
	T["go.uber.org/zap.L"] = zl
	T["go.uber.org/zap.NewNop"] = zl
	T["go.uber.org/zap.S"] = zl
	T["(*go.uber.org/zap.Logger).With"] = zl
	T["(*go.uber.org/zap.Logger).Named"] = zl
	T["(*go.uber.org/zap.Logger).Sugar"] = zl
	T["go.uber.org/zap.NewDevelopmentConfig"] = func(in *Interp, fr *frame, a []value) value {
		return zero(in.P.typeOf("go.uber.org/zap", "Config"))
	}
	T["go.uber.org/zap.NewProductionConfig"] = T["go.uber.org/zap.NewDevelopmentConfig"]
	T["go.uber.org/zap.NewAtomicLevelAt"] = func(in *Interp, fr *frame, a []value) value {
		return zero(in.P.typeOf("go.uber.org/zap", "AtomicLevel"))
	}
	T["(go.uber.org/zap.Config).Build"] = func(in *Interp, fr *frame, a []value) value { return tuple{zl(in, fr, a), nilIface} }
	T["(*go.uber.org/zap.Logger).Sync"] = func(in *Interp, fr *frame, a []value) value { return nilIface }
	// cobra: the flags of a command keep their defaults
	T["(*github.com/spf13/cobra.Command).PersistentFlags"] = func(in *Interp, fr *frame, a []value) value { return cellOf(structV{}) }
	T["(*github.com/spf13/cobra.Command).Flags"] = T["(*github.com/spf13/cobra.Command).PersistentFlags"]
	T["(*github.com/spf13/pflag.FlagSet).StringVar"] = func(in *Interp, fr *frame, a []value) value {
		*(a[1].(*value)) = a[3]
		return nil
	}
	T["(*github.com/spf13/pflag.FlagSet).StringVarP"] = func(in *Interp, fr *frame, a []value) value {
		*(a[1].(*value)) = a[4]
		return nil
	}
	T["go.uber.org/zap.ReplaceGlobals"] = func(in *Interp, fr *frame, a []value) value {
		return &nativeFn{"restore", func(in *Interp, fr *frame, a []value) value { return nil }}
	}

	// errors
	T["errors.Is"] = func(in *Interp, fr *frame, a []value) value {
		err, tgt := a[0].(iface), a[1].(iface)
		for i := 0; i < 50; i++ {
			if err.t == nil || tgt.t == nil {
				return err.t == nil && tgt.t == nil
			}
			if in.p.branch(in.equal(err, tgt)) {
				return true
			}
			f := in.methodNamed(err.t, "Unwrap")
			if f == nil {
				return false
			}
			r, ok := in.callFn(f, fr, []value{err.v}, nil).(iface)
			if !ok {
				return false
			}
			err = r
		}
		return false
	}
	T["errors.As"] = func(in *Interp, fr *frame, a []value) value {
		err, tgt := a[0].(iface), a[1].(iface)
		pt, ok := tgt.t.(*types.Pointer)
		if !ok {
			in.goPanic("errors: target must be a non-nil pointer")
		}
		for i := 0; i < 50 && err.t != nil; i++ {
			if it, ok := pt.Elem().Underlying().(*types.Interface); ok {
				if types.Implements(err.t, it) {
					storeVal(tgt.v.(*value), err)
					return true
				}
			} else if types.Identical(err.t, pt.Elem()) {
				storeVal(tgt.v.(*value), err.v)
				return true
			}
			f := in.methodNamed(err.t, "Unwrap")
			if f == nil {
				return false
			}
			r, ok := in.callFn(f, fr, []value{err.v}, nil).(iface)
			if !ok {
				return false
			}
			err = r
		}
		return false
	}

	// strings / bytes
	T["(*strings.Builder).String"] = func(in *Interp, fr *frame, a []value) value {
		s := (*in.deref(a[0])).(structV)
		b, _ := s[1].([]value)
		return mkStr(b)
	}
	T["(*strings.Builder).copyCheck"] = nop
	T["(*strings.Builder).WriteString"] = func(in *Interp, fr *frame, a []value) value {
		b := (*in.deref(a[0])).(structV)
		old, _ := b[1].([]value)
		els := strEls(a[1])
		b[1] = append(old, els...)
		var n value = int64(len(els))
		for _, e := range els {
			if _, isT := e.(*Tok); isT {
				n = poison{} // the length is not known; using it ends the path as unsupported
			}
		}
		return tuple{n, nilIface}
	}
	// as in bufio, counting a symbolic number as one byte
	T["(*bufio.Writer).WriteString"] = func(in *Interp, fr *frame, a []value) value {
		b := (*in.deref(a[0])).(structV) // err, buf, n, wr
		els := strEls(a[1])
		failed := func() bool { return b[0].(iface).t != nil }
		write := func(p []value) int {
			t := in.callMethod(fr, b[3].(iface), "Write", p).(tuple)
			if e := t[1].(iface); e.t != nil {
				b[0] = e
			}
			return int(in.concInt(t[0]))
		}
		nn := len(els)
		for {
			buf := b[1].([]value)
			n := int(in.concInt(b[2]))
			if len(els) <= len(buf)-n || failed() {
				break
			}
			if n == 0 {
				els = els[write(append([]value{}, els...)):]
				continue
			}
			k := copy(buf[n:], els)
			els = els[k:]
			write(append([]value{}, buf[:n+k]...))
			b[2] = int64(0)
		}
		var res value = int64(nn)
		if failed() {
			return tuple{res, b[0]}
		}
		n := int(in.concInt(b[2]))
		b[2] = int64(n + copy(b[1].([]value)[n:], els))
		for _, e := range els {
			if _, isT := e.(*Tok); isT {
				res = poison{}
			}
		}
		return tuple{res, nilIface}
	}
	T["internal/bytealg.MakeNoZero"] = func(in *Interp, fr *frame, a []value) value {
		n := int(in.concInt(a[0]))
		s := make([]value, n)
		for i := range s {
			s[i] = int64(0)
		}
		return s
	}
	T["internal/bytealg.IndexByte"] = func(in *Interp, fr *frame, a []value) value {
		s, _ := a[0].([]value)
		return indexByte(in, s, byte(in.concInt(a[1])))
	}
	T["internal/bytealg.IndexByteString"] = func(in *Interp, fr *frame, a []value) value {
		if s, ok := a[0].(string); ok {
			return int64(strings.IndexByte(s, byte(in.concInt(a[1]))))
		}
		return indexByte(in, strEls(a[0]), byte(in.concInt(a[1])))
	}
	T["bytes.IndexByte"] = T["internal/bytealg.IndexByte"]
	T["strings.IndexByte"] = T["internal/bytealg.IndexByteString"]
	T["strings.IndexRune"] = func(in *Interp, fr *frame, a []value) value {
		r := rune(in.concInt(a[1]))
		if s, ok := a[0].(string); ok {
			return int64(strings.IndexRune(s, r))
		}
		if r < 0 || r >= 128 {
			panic(pathEnd{"unsupported", "IndexRune"})
		}
		return indexByte(in, strEls(a[0]), byte(r))
	}
	T["bytes.IndexRune"] = func(in *Interp, fr *frame, a []value) value {
		r := rune(in.concInt(a[1]))
		if r < 0 || r >= 128 {
			panic(pathEnd{"unsupported", "IndexRune"})
		}
		s, _ := a[0].([]value)
		return indexByte(in, s, byte(r))
	}
	idx := func(in *Interp, fr *frame, a []value) value {
		if x, ok := a[0].(string); ok {
			if y, ok := a[1].(string); ok {
				return int64(strings.Index(x, y))
			}
		}
		return int64(in.indexSub(anyEls(a[0]), anyEls(a[1])))
	}
	T["strings.Index"], T["bytes.Index"], T["internal/bytealg.IndexString"], T["internal/bytealg.Index"] = idx, idx, idx, idx
	T["strings.LastIndex"] = func(in *Interp, fr *frame, a []value) value {
		return int64(strings.LastIndex(in.concStr(a[0]), in.concStr(a[1])))
	}
	T["strings.LastIndexByte"] = func(in *Interp, fr *frame, a []value) value {
		els := strEls(a[0])
		for i := len(els) - 1; i >= 0; i-- {
			if in.eqByte(els[i], byte(in.concInt(a[1]))) {
				return int64(i)
			}
		}
		return int64(-1)
	}
	T["internal/bytealg.LastIndexByteString"] = T["strings.LastIndexByte"]
	T["internal/bytealg.LastIndexByte"] = func(in *Interp, fr *frame, a []value) value {
		els := anyEls(a[0])
		for i := len(els) - 1; i >= 0; i-- {
			if in.eqByte(els[i], byte(in.concInt(a[1]))) {
				return int64(i)
			}
		}
		return int64(-1)
	}
	cnt := func(in *Interp, fr *frame, a []value) value {
		n := int64(0)
		for _, e := range anyEls(a[0]) {
			if in.eqByte(e, byte(in.concInt(a[1]))) {
				n++
			}
		}
		return n
	}
	T["internal/bytealg.Count"], T["internal/bytealg.CountString"] = cnt, cnt
	eqb := func(in *Interp, fr *frame, a []value) value {
		return in.strEqual(mkStr(anyEls(a[0])), mkStr(anyEls(a[1])))
	}
	T["bytes.Equal"], T["internal/bytealg.Equal"] = eqb, eqb
	cmpb := func(in *Interp, fr *frame, a []value) value {
		return int64(strings.Compare(concEls(in, a[0]), concEls(in, a[1])))
	}
	T["bytes.Compare"], T["internal/bytealg.Compare"], T["strings.Compare"], T["internal/bytealg.CompareString"], T["internal/stringslite.Compare"] = cmpb, cmpb, cmpb, cmpb, cmpb
	for n, f := range map[string]func(string) string{"ToUpper": strings.ToUpper, "ToLower": strings.ToLower, "Title": strings.Title, "TrimSpace": strings.TrimSpace} {
		f := f
		n := n
		T["strings."+n] = func(in *Interp, fr *frame, a []value) value {
			if tk, ok := symTok(a[0]); ok && n == "TrimSpace" && !strings.HasPrefix(tk.verb, "timestr") {
				return a[0]
			}
			return f(in.concStr(a[0]))
		}
	}
	T["bytes.TrimSpace"] = func(in *Interp, fr *frame, a []value) value {
		s := anyEls(a[0])
		sp := func(e value) bool {
			x, ok := e.(int64)
			return ok && (x == ' ' || x == '\n' || x == '\t' || x == '\r' || x == '\v' || x == '\f')
		}
		for len(s) > 0 && sp(s[0]) {
			s = s[1:]
		}
		for len(s) > 0 && sp(s[len(s)-1]) {
			s = s[:len(s)-1]
		}
		if len(s) == 0 {
			return []value(nil)
		}
		return s
	}
	conc2s := func(f func(a, b string) string) stubFn {
		return func(in *Interp, fr *frame, a []value) value { return f(in.concStr(a[0]), in.concStr(a[1])) }
	}
	T["strings.Trim"], T["strings.TrimLeft"], T["strings.TrimRight"] = conc2s(strings.Trim), conc2s(strings.TrimLeft), conc2s(strings.TrimRight)
	T["strings.EqualFold"] = func(in *Interp, fr *frame, a []value) value {
		return strings.EqualFold(in.concStr(a[0]), in.concStr(a[1]))
	}
	T["strings.Fields"] = func(in *Interp, fr *frame, a []value) value {
		var r []value
		for _, s := range strings.Fields(in.concStr(a[0])) {
			r = append(r, s)
		}
		return r
	}
	T["strings.Join"] = func(in *Interp, fr *frame, a []value) value {
		s := ifaces(a[0])
		var r value = ""
		for i, x := range s {
			if i > 0 {
				r = concatStr(r, a[1])
			}
			r = concatStr(r, x)
		}
		return r
	}
	T["unicode.IsSpace"] = func(in *Interp, fr *frame, a []value) value {
		if t, ok := a[0].(*Tok); ok && !tokMayContain(t, ' ') {
			return false
		}
		return unicode.IsSpace(rune(in.concInt(a[0])))
	}
	for n, f := range map[string]func(rune) bool{"IsDigit": unicode.IsDigit, "IsLetter": unicode.IsLetter, "IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsPunct": unicode.IsPunct, "IsPrint": unicode.IsPrint, "IsNumber": unicode.IsNumber} {
		f := f
		T["unicode."+n] = func(in *Interp, fr *frame, a []value) value { return f(rune(in.concInt(a[0]))) }
	}
	for n, f := range map[string]func(rune) rune{"ToUpper": unicode.ToUpper, "ToLower": unicode.ToLower, "SimpleFold": unicode.SimpleFold} {
		f := f
		T["unicode."+n] = func(in *Interp, fr *frame, a []value) value { return int64(f(rune(in.concInt(a[0])))) }
	}
	decR := func(in *Interp, fr *frame, a []value) value {
		els := anyEls(a[0])
		if len(els) == 0 {
			return tuple{int64(0xFFFD), int64(0)}
		}
		switch x := els[0].(type) {
		case *Tok:
			return tuple{value(x), int64(1)}
		case *Lin:
			return tuple{value(x), int64(1)}
		case int64:
			if x < 128 {
				return tuple{x, int64(1)}
			}
		}
		n := len(els)
		if n > 4 {
			n = 4
		}
		s := concEls(in, mkStr(els[:n]))
		for i, r := range s {
			_ = i
			l := len(string(r))
			if r == 0xFFFD {
				l = 1
			}
			return tuple{int64(r), int64(l)}
		}
		return tuple{int64(0xFFFD), int64(1)}
	}
	T["unicode/utf8.DecodeRune"], T["unicode/utf8.DecodeRuneInString"] = decR, decR
	T["(*encoding/csv.Writer).fieldNeedsQuotes"] = func(in *Interp, fr *frame, a []value) value {
		comma := byte(in.concInt((*in.deref(a[0])).(structV)[0]))
		s, ok := a[1].(*SStr)
		if !ok {
			f := a[1].(string)
			if f == "" {
				return false
			}
			if f == `\.` || strings.ContainsAny(f, "\n\r\""+string(rune(comma))) {
				return true
			}
			for _, r := range f {
				return unicode.IsSpace(r)
			}
		}
		for i, e := range s.els {
			for _, c := range []byte{comma, '"', '\r', '\n'} {
				if in.eqByte(e, c) {
					return true
				}
			}
			if i == 0 && !startsPlain(e) && in.eqByte(e, ' ') {
				return true
			}
		}
		return false
	}

	// strconv
	T["strconv.Itoa"] = func(in *Interp, fr *frame, a []value) value { return in.fmtInt(a[0], 10) }
	T["strconv.FormatInt"] = func(in *Interp, fr *frame, a []value) value { return in.fmtInt(a[0], int(in.concInt(a[1]))) }
	T["strconv.FormatUint"] = func(in *Interp, fr *frame, a []value) value {
		if x, ok := a[0].(int64); ok {
			return strconv.FormatUint(uint64(x), int(in.concInt(a[1])))
		}
		return in.fmtInt(a[0], int(in.concInt(a[1])))
	}
	T["strconv.AppendInt"] = func(in *Interp, fr *frame, a []value) value {
		s, _ := a[0].([]value)
		return append(s[:len(s):len(s)], strEls(in.fmtInt(a[1], int(in.concInt(a[2]))))...)
	}
	T["strconv.FormatFloat"] = func(in *Interp, fr *frame, a []value) value {
		if l, ok := a[0].(*Lin); ok {
			f, p := byte(in.concInt(a[1])), in.concInt(a[2])
			if p == -1 && f == 'f' && l.maxAbs().Cmp(pow2(60)) < 0 {
				return &SStr{els: []value{&Tok{verb: "json", isF: true, l: l}}}
			}
			return strconv.FormatFloat(floatOfRat(in.p.concretize(l)), f, int(p), 64)
		}
		return strconv.FormatFloat(a[0].(float64), byte(in.concInt(a[1])), int(in.concInt(a[2])), int(in.concInt(a[3])))
	}
	T["strconv.FormatBool"] = func(in *Interp, fr *frame, a []value) value {
		if in.p.branch(a[0]) {
			return "true"
		}
		return "false"
	}
	T["strconv.Quote"] = func(in *Interp, fr *frame, a []value) value { return strconv.Quote(in.concStr(a[0])) }
	T["strconv.ParseInt"] = func(in *Interp, fr *frame, a []value) value { return in.parseInt(a[0], a[1], a[2], false) }
	T["strconv.ParseUint"] = func(in *Interp, fr *frame, a []value) value { return in.parseInt(a[0], a[1], a[2], true) }
	T["strconv.Atoi"] = func(in *Interp, fr *frame, a []value) value {
		return in.parseInt(a[0], int64(10), int64(64), false)
	}
	T["strconv.ParseFloat"] = func(in *Interp, fr *frame, a []value) value {
		if t, ok := symTok(a[0]); ok {
			if v, ok := in.tokFloat(t); ok {
				return tuple{v, nilIface}
			}
		}
		f, err := strconv.ParseFloat(in.concStr(a[0]), int(in.concInt(a[1])))
		return tuple{f, in.errOf(err)}
	}
	T["strconv.ParseBool"] = func(in *Interp, fr *frame, a []value) value {
		if t, ok := symTok(a[0]); ok && !t.isF && !strings.HasPrefix(t.verb, "time") {
			if in.p.branch(mkCmp(linSub(t.l, linConst(ratOne)), relEQ)) {
				return tuple{true, nilIface}
			}
			if in.p.branch(mkCmp(t.l, relEQ)) {
				return tuple{false, nilIface}
			}
			return tuple{false, in.mkErr("strconv.ParseBool: invalid syntax")}
		}
		b, err := strconv.ParseBool(in.concStr(a[0]))
		return tuple{b, in.errOf(err)}
	}

	// path and filepath
	p1 := func(f func(string) string) stubFn {
		return func(in *Interp, fr *frame, a []value) value { return f(in.concStr(a[0])) }
	}
	for _, pk := range []string{"path", "path/filepath"} {
		T[pk+".Ext"], T[pk+".Base"], T[pk+".Dir"], T[pk+".Clean"] = p1(path.Ext), p1(path.Base), p1(path.Dir), p1(path.Clean)
		T[pk+".Join"] = func(in *Interp, fr *frame, a []value) value {
			var l []string
			for _, x := range ifaces(a[0]) {
				l = append(l, in.concStr(x))
			}
			return path.Join(l...)
		}
	}
	T["path/filepath.Abs"] = func(in *Interp, fr *frame, a []value) value {
		return tuple{in.fs.abs(in.concStr(a[0])), nilIface}
	}

	// time
	T["time.Now"] = func(in *Interp, fr *frame, a []value) value { return in.now() }
	T["time.Since"] = func(in *Interp, fr *frame, a []value) value { return int64(1500000000) }
	T["time.Sleep"] = func(in *Interp, fr *frame, a []value) value { in.sched.yield(fr.g); return nil }
	T["(time.Time).Sub"] = func(in *Interp, fr *frame, a []value) value { return in.timeSub(a[0], a[1]) }
	for _, n := range []string{"String", "Format", "GoString"} {
		n := n
		T["(time.Time)."+n] = func(in *Interp, fr *frame, a []value) value {
			s := a[0].(structV)
			if l, ok := s[1].(*Lin); ok {
				if n != "String" {
					return &SStr{els: []value{&Tok{verb: "timestr:" + in.concStr(a[1]), l: l}}}
				}
				return &SStr{els: []value{&Tok{verb: "timestr", l: l}}}
			}
			t := goTime(s)
			if n == "String" {
				return t.String()
			}
			return t.Format(in.concStr(a[1]))
		}
	}
	T["(time.Duration).String"] = func(in *Interp, fr *frame, a []value) value {
		return durString(in.concInt(a[0]))
	}
	for _, n := range []string{"Year", "Day", "YearDay", "Hour", "Minute", "Second"} {
		n := n
		T["(time.Time)."+n] = func(in *Interp, fr *frame, a []value) value {
			s := copyVal(a[0]).(structV)
			s[1] = in.concInt(s[1])
			t := goTime(s)
			switch n {
			case "Year":
				return int64(t.Year())
			case "Day":
				return int64(t.Day())
			case "YearDay":
				return int64(t.YearDay())
			case "Hour":
				return int64(t.Hour())
			case "Minute":
				return int64(t.Minute())
			}
			return int64(t.Second())
		}
	}

	// sync
	lk := func(in *Interp, fr *frame, a []value) value { in.lock(fr, in.deref(a[0])); return nil }
	ul := func(in *Interp, fr *frame, a []value) value { in.unlock(fr, in.deref(a[0])); return nil }
	for _, t := range []string{"Mutex", "RWMutex"} {
		T["(*sync."+t+").Lock"], T["(*sync."+t+").Unlock"] = lk, ul
	}
	T["(*sync.RWMutex).RLock"], T["(*sync.RWMutex).RUnlock"] = nop, nop
	T["(*sync.WaitGroup).Add"] = func(in *Interp, fr *frame, a []value) value { in.wgAdd(in.deref(a[0]), in.concInt(a[1])); return nil }
	T["(*sync.WaitGroup).Done"] = func(in *Interp, fr *frame, a []value) value { in.wgAdd(in.deref(a[0]), -1); return nil }
	T["(*sync.WaitGroup).Wait"] = func(in *Interp, fr *frame, a []value) value { in.wgWait(fr, in.deref(a[0])); return nil }
	T["(*sync.Once).Do"] = func(in *Interp, fr *frame, a []value) value {
		d := in.native(in.deref(a[0]), "once", func() interface{} { return new(bool) }).(*bool)
		if !*d {
			*d = true
			in.call(fr, a[1], nil)
		}
		return nil
	}
	atomicCell := func(in *Interp, v value) *value {
		p := in.deref(v)
		for {
			s, ok := (*p).(structV)
			if !ok {
				return p
			}
			p = &s[len(s)-1]
		}
	}
	k64 := kind{isInt: true, bits: 64, signed: true}
	k32 := kind{isInt: true, bits: 32, signed: true}
	for _, ty := range []string{"Int64", "Uint64", "Int32", "Uint32", "Bool", "Uintptr", "Pointer"} {
		k := k64
		if strings.HasSuffix(ty, "32") {
			k = k32
		}
		add := func(in *Interp, fr *frame, a []value) value {
			c := atomicCell(in, a[0])
			*c = in.binop(tokADD, *c, a[1], k, k)
			return *c
		}
		load := func(in *Interp, fr *frame, a []value) value {
			c := atomicCell(in, a[0])
			if ty == "Bool" {
				if b, ok := (*c).(int64); ok {
					return b != 0
				}
			}
			return *c
		}
		store := func(in *Interp, fr *frame, a []value) value {
			c := atomicCell(in, a[0])
			v := a[1]
			if b, ok := v.(bool); ok {
				v = int64(0)
				if b {
					v = int64(1)
				}
			}
			*c = v
			return nil
		}
		cas := func(in *Interp, fr *frame, a []value) value {
			c := atomicCell(in, a[0])
			if in.p.branch(in.equal(*c, a[1])) {
				*c = a[2]
				return true
			}
			return false
		}
		T["sync/atomic.Add"+ty], T["(*sync/atomic."+ty+").Add"] = add, add
		T["sync/atomic.Load"+ty], T["(*sync/atomic."+ty+").Load"] = load, load
		T["sync/atomic.Store"+ty], T["(*sync/atomic."+ty+").Store"] = store, store
		T["sync/atomic.CompareAndSwap"+ty], T["(*sync/atomic."+ty+").CompareAndSwap"] = cas, cas
	}

	// sort
	T["sort.Slice"] = func(in *Interp, fr *frame, a []value) value { return in.sortSlice(fr, a[0].(iface), a[1], false) }
	T["sort.SliceStable"] = func(in *Interp, fr *frame, a []value) value { return in.sortSlice(fr, a[0].(iface), a[1], true) }

	// rand
	rp := "(*math/rand.Rand)."
	newRand := func(in *Interp, fr *frame, a []value) value {
		t := in.P.typeOf("math/rand", "Rand")
		return cellOf(zero(t))
	}
	T["math/rand.New"] = newRand
	T["math/rand.NewSource"] = func(in *Interp, fr *frame, a []value) value {
		t := in.P.typeOf("math/rand", "rngSource")
		return iface{types.NewPointer(t), cellOf(zero(t))}
	}
	T["math/rand.Seed"], T[rp+"Seed"] = nop, nop
	for _, m := range []string{"Float64", "Float32", "Int63", "Int31", "Uint32", "Int", "Uint64"} {
		m := m
		f := func(in *Interp, fr *frame, a []value) value { return in.randDraw(m) }
		T["math/rand."+m] = f
		T[rp+m] = func(in *Interp, fr *frame, a []value) value { in.deref(a[0]); return f(in, fr, a[1:]) }
	}
	for _, m := range []string{"Intn", "Int63n", "Int31n", "int31n"} {
		f := func(in *Interp, fr *frame, a []value) value { return in.randN(a[0]) }
		T["math/rand."+m] = f
		T[rp+m] = func(in *Interp, fr *frame, a []value) value { in.deref(a[0]); return f(in, fr, a[1:]) }
	}
	T["math/rand.Perm"] = func(in *Interp, fr *frame, a []value) value {
		return in.callFn(in.methodNamed(types.NewPointer(in.P.typeOf("math/rand", "Rand")), "Perm"), fr, []value{newRand(in, fr, nil), a[0]}, nil)
	}
	T["math/rand.Shuffle"] = func(in *Interp, fr *frame, a []value) value {
		return in.callFn(in.methodNamed(types.NewPointer(in.P.typeOf("math/rand", "Rand")), "Shuffle"), fr, []value{newRand(in, fr, nil), a[0], a[1]}, nil)
	}

	// hashing helpers of the maps package and unsafe tricks
	T["internal/abi.NoEscape"] = func(in *Interp, fr *frame, a []value) value { return a[0] }
	T["internal/godebug.New"] = func(in *Interp, fr *frame, a []value) value { return cellOf(structV{}) }
	T["(*internal/godebug.Setting).Value"] = func(in *Interp, fr *frame, a []value) value { return "" }
	T["(*internal/godebug.Setting).IncNonDefault"] = nop
	T["runtime.GC"], T["runtime.Gosched"], T["runtime/debug.FreeOSMemory"] = nop, nop, nop
	T["runtime.NumCPU"] = func(in *Interp, fr *frame, a []value) value { return int64(1) }
	T["runtime.KeepAlive"] = nop
	addFS(T)
	addCSV(T)
	addJSON(T)
	addReflect(T)
	_ = str
}

func anyEls(v value) []value {
	switch s := v.(type) {
	case []value:
		return s
	case string, *SStr:
		return strEls(s)
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("bytes expected, got %T", v)})
}

func (in *Interp) errOf(err error) iface {
	if err == nil {
		return nilIface
	}
	return in.mkErr(err.Error())
}

func (in *Interp) fmtInt(v value, base int) value {
	if x, ok := v.(int64); ok {
		return strconv.FormatInt(x, base)
	}
	if base != 10 {
		return strconv.FormatInt(in.concInt(v), base)
	}
	return &SStr{els: []value{&Tok{verb: "%d", l: v.(*Lin)}}}
}

func (in *Interp) parseInt(s, base, bits value, uns bool) value {
	if t, ok := symTok(s); ok && in.concInt(base) == 10 && !strings.HasPrefix(t.verb, "time") {
		if !t.isF {
			bs := int(in.concInt(bits))
			if bs == 0 {
				bs = 64
			}
			mn, mx := kind{isInt: true, bits: bs, signed: !uns}.rng()
			if in.p.branch(andV(mkCmp(linSub(t.l, linConst(mn)), relGE), mkCmp(linSub(t.l, linConst(mx)), relLE))) {
				return tuple{value(t.l), nilIface}
			}
			return tuple{int64(0), in.mkErr("strconv.ParseInt: value out of range")}
		}
		if t.verb != "json" {
			return tuple{int64(0), in.mkErr("strconv.ParseInt: invalid syntax")}
		}
	}
	c := in.concStr(s)
	if uns {
		n, err := strconv.ParseUint(c, int(in.concInt(base)), int(in.concInt(bits)))
		return tuple{int64(n), in.errOf(err)}
	}
	n, err := strconv.ParseInt(c, int(in.concInt(base)), int(in.concInt(bits)))
	return tuple{n, in.errOf(err)}
}

// tokFloat gives the float a printed number parses to.
func (in *Interp) tokFloat(t *Tok) (value, bool) {
	if strings.HasPrefix(t.verb, "time") {
		return nil, false
	}
	if !t.isF {
		return in.roundF(t.l, 64), true
	}
	switch t.verb {
	case "json", "%v", "%g":
		return t.l, true
	}
	d := verbDecimals(t.verb)
	if d < 0 {
		return nil, false
	}
	if g := t.l.gran(); g >= 0 && g <= d {
		return t.l, true
	}
	return in.decimalRound(t, d), true
}

// verbDecimals gives the number of decimals printed by %f and %.2f and the like.
func verbDecimals(verb string) int {
	if verb == "%f" {
		return 6
	}
	v := strings.TrimPrefix(verb, "%")
	if strings.HasPrefix(v, "0") {
		v = strings.TrimLeft(v, "0123456789")
	}
	if len(v) == 3 && v[0] == '.' && v[1] >= '0' && v[1] <= '9' && v[2] == 'f' {
		return int(v[1] - '0')
	}
	return -1
}

// decimalRound is the float a number printed with d decimals parses to: within half a unit of the last one.
func (in *Interp) decimalRound(t *Tok, d int) value {
	l := t.l
	key := t.verb + l.String()
	if r, ok := in.p.roundM[key]; ok {
		return r
	}
	rnd := func(r *big.Rat) *big.Rat {
		f, err := strconv.ParseFloat(strconv.FormatFloat(floatOfRat(r), 'f', d, 64), 64)
		if err != nil {
			panic(pathEnd{"unsupported", "printed number"})
		}
		return ratOfFloat(f)
	}
	lo, hi := l.bounds()
	v := in.p.newVar("", false, rnd(lo), rnd(hi))
	v.def = true
	v.ev = func(md Model) *big.Rat {
		x, ok := evalLin(l, md)
		if !ok {
			return nil
		}
		return rnd(x)
	}
	e := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(d)), nil))
	e.Mul(e, big.NewRat(1, 2))
	e.Add(e, new(big.Rat).Mul(l.maxAbs(), u53))
	e.Add(e, new(big.Rat).Mul(l.maxAbs(), u53))
	r := linVar(v)
	in.p.constrainDef(mkCmp(linSub(linSub(r, l), linConst(e)), relLE))
	in.p.constrainDef(mkCmp(linAdd(linSub(r, l), linConst(e)), relGE))
	in.p.roundM[key] = r
	return r
}

// ---------------------------------------------------------------- randomness

func (in *Interp) newInput(name string, isInt bool, lo, hi *big.Rat) *Var {
	v := in.p.newVar(name, isInt, lo, hi)
	v.input = true
	in.p.inputs = append(in.p.inputs, v)
	return v
}

const randBits = 30

// newDraw is the next random draw; after a rewind, that of the same position.
func (in *Interp) newDraw(lo, hi *big.Rat) *Var {
	p := in.p
	if p.drawn < len(p.draws) {
		v := p.draws[p.drawn]
		p.drawn++
		p.assume(mkCmp(linSub(linVar(v), linConst(hi)), relLE))
		return v
	}
	v := in.newInput("rand", true, lo, hi)
	p.draws = append(p.draws, v)
	p.drawn++
	return v
}

func (in *Interp) randDraw(m string) value {
	switch m {
	case "Float64", "Float32":
		b := randBits
		if m == "Float32" {
			b = 20
		}
		v := in.newDraw(ratZero, new(big.Rat).Sub(pow2(b), ratOne))
		return linScale(linVar(v), pow2(-b))
	}
	v := in.newDraw(ratZero, ratInt(1<<31-1))
	return linVar(v)
}

func (in *Interp) randN(n value) value {
	switch x := n.(type) {
	case int64:
		if x <= 0 {
			panic(targetPanic{iface{types.Typ[types.String], "invalid argument to Intn"}})
		}
		v := in.newDraw(ratZero, ratInt(x-1))
		if x == 1 {
			return int64(0)
		}
		return linVar(v)
	case *Lin:
		if !in.p.branch(mkCmp(x, relGT)) {
			panic(targetPanic{iface{types.Typ[types.String], "invalid argument to Intn"}})
		}
		_, hi := x.bounds()
		v := in.newDraw(ratZero, new(big.Rat).Sub(hi, ratOne))
		r := linVar(v)
		in.p.assume(mkCmp(linSub(r, x), relLT))
		return r
	}
	panic(pathEnd{"unsupported", "Intn"})
}

// ---------------------------------------------------------------- sort

func (in *Interp) sortSlice(fr *frame, x iface, less value, stable bool) value {
	s := ifaces(x.v)
	swap := &nativeFn{"swap", func(in *Interp, fr *frame, a []value) value {
		i, j := int(in.concInt(a[0])), int(in.concInt(a[1]))
		vi, vj := copyVal(s[i]), copyVal(s[j])
		storeVal(&s[i], vj)
		storeVal(&s[j], vi)
		return nil
	}}
	ls := structV{less, swap}
	p := in.P.pkgs["sort"]
	in.P.build(p)
	if stable {
		in.callFn(p.Func("stable_func"), fr, []value{ls, int64(len(s))}, nil)
		return nil
	}
	limit := int64(0)
	for n := len(s); n > 0; n >>= 1 {
		limit++
	}
	in.callFn(p.Func("pdqsort_func"), fr, []value{ls, int64(0), int64(len(s)), limit}, nil)
	return nil
}

func (in *Interp) wgAdd(p *value, d int64) {
	w := in.native(p, "wg", func() interface{} { return &wgObj{} }).(*wgObj)
	w.n += d
	if w.n < 0 {
		in.goPanic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		for _, g := range w.wait {
			in.sched.ready(g)
		}
		w.wait = nil
	}
}

func (in *Interp) wgWait(fr *frame, p *value) {
	w := in.native(p, "wg", func() interface{} { return &wgObj{} }).(*wgObj)
	for w.n > 0 {
		w.wait = append(w.wait, fr.g)
		in.sched.block(fr.g, "WaitGroup.Wait")
	}
}
