package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Interpreted values:
//
//	bool            bool or *Form
//	integers        int64 (bit pattern) or *Lin
//	floats          float64 or *Lin
//	string          string or *SStr
//	pointer         *value (nil pointer: (*value)(nil))
//	struct          structV
//	array           arrayV
//	slice           []value
//	map             *mapV
//	chan            *chanV
//	func            *closure, *ssa.Function, *ssa.Builtin
//	interface       iface
type value interface{}

type structV []value
type arrayV []value
type tuple []value

type iface struct {
	t types.Type
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

// a bound native function used as a func value
type nativeFn struct {
	name string
	f    func(in *Interp, fr *frame, args []value) value
}

// opaque is a native object behind an interpreted pointer.
type opaque struct {
	kind string
	data interface{}
}

// Tok is one indivisible token of a symbolic string: a formatted number or time.
type Tok struct {
	verb string // fmt verb, or "json", "time"
	isF  bool   // float formatting
	l    *Lin
	t    types.Type
}

// SStr is a symbolic string: each element is an int64 byte, a *Lin byte or a *Tok.
type SStr struct{ els []value }

type mapEntry struct {
	k, v    value
	deleted bool
}

type mapV struct {
	ents  []*mapEntry
	idx   map[interface{}]*mapEntry
	nsym  int
	iters int
	n     int
}

func newMap() *mapV { return &mapV{idx: map[interface{}]*mapEntry{}} }

type hangEntry struct{}

func zero(t types.Type) value {
	switch t := t.(type) {
	case *types.Basic:
		if t.Kind() == types.UntypedNil {
			return iface{}
		}
		info := t.Info()
		switch {
		case info&types.IsBoolean != 0:
			return false
		case info&types.IsInteger != 0:
			return int64(0)
		case info&types.IsFloat != 0:
			return float64(0)
		case info&types.IsString != 0:
			return ""
		case t.Kind() == types.UnsafePointer:
			return (*value)(nil)
		}
		panic(pathEnd{"unsupported", "zero of " + t.String()})
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		a := make(arrayV, t.Len())
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Named:
		return zero(t.Underlying())
	case *types.Alias:
		return zero(types.Unalias(t))
	case *types.Interface:
		return iface{}
	case *types.Slice:
		return []value(nil)
	case *types.Struct:
		s := make(structV, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.Chan:
		return (*chanV)(nil)
	case *types.Map:
		return (*mapV)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.TypeParam:
		panic(pathEnd{"unsupported", "type parameter"})
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("zero of %T", t)})
}

// copyVal makes an independent copy of aggregates.
func copyVal(v value) value {
	switch v := v.(type) {
	case structV:
		c := make(structV, len(v))
		for i := range v {
			c[i] = copyVal(v[i])
		}
		return c
	case arrayV:
		c := make(arrayV, len(v))
		for i := range v {
			c[i] = copyVal(v[i])
		}
		return c
	}
	return v
}

// storeVal stores v at p keeping the identity of aggregate cells.
func storeVal(p *value, v value) {
	switch v := v.(type) {
	case structV:
		if d, ok := (*p).(structV); ok && len(d) == len(v) {
			for i := range v {
				storeVal(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	case arrayV:
		if d, ok := (*p).(arrayV); ok && len(d) == len(v) {
			for i := range v {
				storeVal(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

func isSym(v value) bool {
	switch v := v.(type) {
	case *Lin, *Form, *SStr:
		return true
	case structV:
		for _, x := range v {
			if isSym(x) {
				return true
			}
		}
	case arrayV:
		for _, x := range v {
			if isSym(x) {
				return true
			}
		}
	case iface:
		return isSym(v.v)
	}
	return false
}

type ifaceKey struct {
	t string
	v interface{}
}

// hashKey gives a comparable Go value for a concrete map key.
func hashKey(v value) (interface{}, bool) {
	switch v := v.(type) {
	case bool, int64, float64, string, *value, *chanV:
		return v, true
	case iface:
		if v.t == nil {
			return ifaceKey{}, true
		}
		k, ok := hashKey(v.v)
		return ifaceKey{v.t.String(), k}, ok
	case structV:
		return aggKey("s", v)
	case arrayV:
		return aggKey("a", v)
	}
	return nil, false
}

func aggKey(p string, vs []value) (interface{}, bool) {
	var sb strings.Builder
	sb.WriteString(p)
	for _, x := range vs {
		k, ok := hashKey(x)
		if !ok {
			return nil, false
		}
		s := fmt.Sprintf("%T:%v", k, k)
		sb.WriteString(strconv.Itoa(len(s)))
		sb.WriteString("|")
		sb.WriteString(s)
	}
	return sb.String(), true
}

// ---------------------------------------------------------------- map operations

func (in *Interp) mapFind(m *mapV, k value) *mapEntry {
	if m == nil {
		return nil
	}
	hk, conc := hashKey(k)
	if conc {
		if e := m.idx[hk]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	if kl, ok := k.(*Lin); ok {
		for _, e := range m.ents {
			if l, ok := e.k.(*Lin); ok && !e.deleted && l == kl {
				return e
			}
		}
	}
	for _, e := range m.ents {
		if e.deleted {
			continue
		}
		if conc {
			if !isSym(e.k) {
				continue
			}
		}
		if in.p.branch(in.equal(e.k, k)) {
			return e
		}
	}
	return nil
}

func (in *Interp) mapSet(m *mapV, k, v value) {
	if m == nil {
		in.goPanic("assignment to entry in nil map")
	}
	if e := in.mapFind(m, k); e != nil {
		e.v = copyVal(v)
		return
	}
	e := &mapEntry{k: copyVal(k), v: copyVal(v)}
	m.ents = append(m.ents, e)
	m.n++
	if hk, ok := hashKey(k); ok {
		m.idx[hk] = e
	} else {
		m.nsym++
	}
}

func (in *Interp) mapDelete(m *mapV, k value) {
	e := in.mapFind(m, k)
	if e == nil {
		return
	}
	e.deleted = true
	m.n--
	if hk, ok := hashKey(e.k); ok {
		delete(m.idx, hk)
	} else {
		m.nsym--
	}
	if len(m.ents) > 32 && m.n < len(m.ents)/4 && m.iters == 0 {
		var l []*mapEntry
		for _, e := range m.ents {
			if !e.deleted {
				l = append(l, e)
			}
		}
		m.ents = l
	}
}

// ---------------------------------------------------------------- equality

// equal returns bool or *Form.
func (in *Interp) equal(a, b value) value {
	switch x := a.(type) {
	case bool:
		switch y := b.(type) {
		case bool:
			return x == y
		case *Form:
			if x {
				return y
			}
			return y.not()
		}
	case *Form:
		switch y := b.(type) {
		case bool:
			if y {
				return x
			}
			return x.not()
		case *Form:
			return orV(andV(x, y), andV(x.not(), y.not()))
		}
	case int64:
		switch y := b.(type) {
		case int64:
			return x == y
		case *Lin:
			return mkCmp(linSub(linConst(ratInt(x)), y), relEQ)
		}
	case float64:
		switch y := b.(type) {
		case float64:
			return x == y
		case *Lin:
			if !isFinite(x) {
				return false
			}
			return mkCmp(linSub(linConst(ratOfFloat(x)), y), relEQ)
		}
	case *Lin:
		switch y := b.(type) {
		case int64:
			return mkCmp(linSub(x, linConst(ratInt(y))), relEQ)
		case float64:
			if !isFinite(y) {
				return false
			}
			return mkCmp(linSub(x, linConst(ratOfFloat(y))), relEQ)
		case *Lin:
			if x == y {
				return true
			}
			k := [2]*Lin{x, y}
			if v, ok := in.p.eqC[k]; ok {
				return v
			}
			v := mkCmp(linSub(x, y), relEQ)
			in.p.eqC[k] = v
			return v
		}
	case string:
		if y, ok := b.(string); ok {
			return x == y
		}
		return in.strEqual(a, b)
	case *SStr:
		return in.strEqual(a, b)
	case *value:
		y, ok := b.(*value)
		if ok {
			return x == y
		}
		if b == nil {
			return x == nil
		}
	case *chanV:
		return x == b.(*chanV)
	case *mapV:
		if y, ok := b.(*mapV); ok {
			return x == y
		}
	case structV:
		y := b.(structV)
		var r value = true
		for i := range x {
			r = andV(r, in.equal(x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case arrayV:
		y := b.(arrayV)
		var r value = true
		for i := range x {
			r = andV(r, in.equal(x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case iface:
		y, ok := b.(iface)
		if !ok {
			break
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if x.t != y.t && !types.Identical(x.t, y.t) {
			return false
		}
		switch x.t.Underlying().(type) {
		case *types.Map, *types.Slice, *types.Signature:
			in.goPanic("runtime error: comparing uncomparable type " + x.t.String())
		}
		return in.equal(x.v, y.v)
	case []value:
		if b == nil {
			return x == nil
		}
		if y, ok := b.([]value); ok {
			return x == nil && y == nil || (len(x) > 0 && len(y) > 0 && &x[0] == &y[0])
		}
	case *ssa.Function:
		y, ok := b.(*ssa.Function)
		return ok && x == y
	case *closure:
		y, ok := b.(*closure)
		return ok && x == y
	case *nativeFn:
		return false
	case *ssa.Builtin:
		return false
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("equality of %T and %T", a, b)})
}

// ---------------------------------------------------------------- rendering

func ratString(r *big.Rat, isF bool) string {
	if isF {
		f := floatOfRat(r)
		return strconv.FormatFloat(f, 'g', -1, 64)
	}
	return r.RatString()
}

// renderObs renders a scalar or string value in a model.
func renderObs(v value, m Model) (string, bool) {
	switch x := v.(type) {
	case bool:
		return strconv.FormatBool(x), true
	case *Form:
		b, ok := evalForm(x, m)
		return strconv.FormatBool(b), ok
	case int64:
		return strconv.FormatInt(x, 10), true
	case float64:
		if isFinite(x) {
			return ratOfFloat(x).RatString(), true
		}
		return fmt.Sprint(x), true
	case *Lin:
		if usesRounding(x) {
			return "", false
		}
		r, ok := evalLin(x, m)
		if !ok {
			return "", false
		}
		return r.RatString(), true
	case string:
		return x, true
	case *SStr:
		var sb strings.Builder
		for _, e := range x.els {
			switch y := e.(type) {
			case int64:
				sb.WriteByte(byte(y))
			case *Lin:
				r, ok := evalLin(y, m)
				if !ok {
					return "", false
				}
				sb.WriteByte(byte(r.Num().Int64()))
			case *Tok:
				if usesRounding(y.l) {
					return "", false
				}
				r, ok := evalLin(y.l, m)
				if !ok {
					return "", false
				}
				s, ok := y.render(r)
				if !ok {
					return "", false
				}
				sb.WriteString(s)
			}
		}
		return sb.String(), true
	}
	return "", false
}

func usesRounding(l *Lin) bool {
	for _, t := range l.ts {
		if t.v.def && !t.v.isInt {
			return true
		}
	}
	return false
}

func formUsesRounding(f *Form) bool {
	if f == nil {
		return false
	}
	return f.sig != nil && usesRounding(f.sig) || formUsesRounding(f.a) || formUsesRounding(f.b)
}

// poison stands for a value the model does not know.
type poison struct{}
