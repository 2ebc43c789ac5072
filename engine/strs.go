package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"
	"time"
)

type sbuilder struct{ strings.Builder }

// mkStr makes a string value from byte elements, copying them.
func mkStr(els []value) value {
	conc := true
	for _, e := range els {
		if _, ok := e.(int64); !ok {
			conc = false
			break
		}
	}
	if conc {
		b := make([]byte, len(els))
		for i, e := range els {
			b[i] = byte(e.(int64))
		}
		return string(b)
	}
	c := make([]value, len(els))
	copy(c, els)
	return &SStr{els: c}
}

func strEls(v value) []value {
	switch s := v.(type) {
	case string:
		r := make([]value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = int64(s[i])
		}
		return r
	case *SStr:
		return s.els
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("string expected, got %T", v)})
}

func concatStr(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	ea, eb := strEls(a), strEls(b)
	r := make([]value, 0, len(ea)+len(eb))
	r = append(r, ea...)
	r = append(r, eb...)
	return &SStr{els: r}
}

// needBytes refuses operations that need to look inside a token.
func (in *Interp) needBytes(s *SStr) {
	for i, e := range s.els {
		if t, ok := e.(*Tok); ok {
			// expand the tokens by choosing their value
			var els []value
			els = append(els, s.els[:i]...)
			els = append(els, strEls(in.concTok(t))...)
			for _, f := range s.els[i+1:] {
				if t2, ok := f.(*Tok); ok {
					els = append(els, strEls(in.concTok(t2))...)
				} else {
					els = append(els, f)
				}
			}
			s.els = els
			return
		}
	}
}

func (in *Interp) concTok(t *Tok) string {
	r := in.p.concretize(t.l)
	s, ok := t.render(r)
	if !ok {
		panic(pathEnd{"unsupported", "token " + t.verb})
	}
	return s
}

// render formats the token for a concrete value.
func (t *Tok) render(r *big.Rat) (string, bool) {
	switch t.verb {
	case "json":
		if t.isF {
			return jsonFloat(floatOfRat(r)), true
		}
		return r.RatString(), true
	case "time":
		return time.Unix(new(big.Int).Sub(r.Num(), big.NewInt(unixToInternal)).Int64(), 0).UTC().Format(time.RFC3339Nano), true
	case "timestr":
		return time.Unix(new(big.Int).Sub(r.Num(), big.NewInt(unixToInternal)).Int64(), 0).UTC().String(), true
	}
	if strings.HasPrefix(t.verb, "timestr:") {
		return time.Unix(new(big.Int).Sub(r.Num(), big.NewInt(unixToInternal)).Int64(), 0).UTC().Format(t.verb[8:]), true
	}
	if t.isF {
		return fmt.Sprintf(t.verb, floatOfRat(r)), true
	}
	if r.Num().IsInt64() {
		return fmt.Sprintf(t.verb, r.Num().Int64()), true
	}
	return fmt.Sprintf(t.verb, r.Num().Uint64()), true
}

const unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400

func jsonFloat(f float64) string {
	b := strconv.AppendFloat(nil, f, 'f', -1, 64)
	abs := f
	if abs < 0 {
		abs = -abs
	}
	if abs != 0 && (abs < 1e-6 || abs >= 1e21) {
		b = strconv.AppendFloat(nil, f, 'e', -1, 64)
		n := len(b)
		if n >= 4 && b[n-4] == 'e' && (b[n-3] == '-' || b[n-3] == '+') && b[n-2] == '0' {
			b[n-2] = b[n-1]
			b = b[:n-1]
		}
	}
	return string(b)
}

// concStr makes a string concrete by choosing values for its symbols.
func (in *Interp) concStr(v value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SStr:
		in.needBytes(s)
		b := make([]byte, len(s.els))
		for i, e := range s.els {
			b[i] = byte(in.concInt(e))
		}
		return string(b)
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("string expected, got %T", v)})
}

func byteLin(v value) *Lin {
	switch x := v.(type) {
	case int64:
		return linConst(ratInt(x))
	case *Lin:
		return x
	}
	panic("byteLin")
}

const numChars = "0123456789"

func (in *Interp) strEqual(a, b value) value {
	ea, eb := strEls(a), strEls(b)
	hasTok := func(es []value) bool {
		for _, e := range es {
			if _, ok := e.(*Tok); ok {
				return true
			}
		}
		return false
	}
	ta, tb := hasTok(ea), hasTok(eb)
	if !ta && !tb {
		if len(ea) != len(eb) {
			return false
		}
		var r value = true
		for i := range ea {
			x, ok1 := ea[i].(int64)
			y, ok2 := eb[i].(int64)
			if ok1 && ok2 {
				if x != y {
					return false
				}
				continue
			}
			r = andV(r, mkCmp(linSub(byteLin(ea[i]), byteLin(eb[i])), relEQ))
			if r == false {
				return false
			}
		}
		return r
	}
	// a token always contains a digit
	if !ta || !tb {
		other := ea
		if ta {
			other = eb
		}
		if s, ok := mkStr(other).(string); ok && !strings.ContainsAny(s, numChars) {
			return false
		}
	}
	if len(ea) == len(eb) {
		same := true
		for i := range ea {
			_, x := ea[i].(*Tok)
			_, y := eb[i].(*Tok)
			if x != y {
				same = false
			}
			if x && y {
				t1, t2 := ea[i].(*Tok), eb[i].(*Tok)
				if t1.verb != t2.verb || t1.isF != t2.isF || (t1.isF && t1.verb != "json" && !(t1.l.gran() == 0 && t2.l.gran() == 0)) {
					same = false
				}
			}
		}
		// separators must not be number characters for a positional comparison to be exact
		if same {
			for i := range ea {
				if c, ok := ea[i].(int64); ok {
					if _, isT := prevTok(ea, i); isT && strings.ContainsRune("0123456789+-.eE", rune(c)) {
						same = false
					}
				}
			}
		}
		if same {
			var r value = true
			for i := range ea {
				if t1, ok := ea[i].(*Tok); ok {
					r = andV(r, mkCmp(linSub(t1.l, eb[i].(*Tok).l), relEQ))
				} else {
					r = andV(r, mkCmp(linSub(byteLin(ea[i]), byteLin(eb[i])), relEQ))
				}
				if r == false {
					return false
				}
			}
			return r
		}
	}
	// a single integer token against a number
	if len(ea) == 1 && ta && !tb {
		return in.tokEqConst(ea[0].(*Tok), b)
	}
	if len(eb) == 1 && tb && !ta {
		return in.tokEqConst(eb[0].(*Tok), a)
	}
	return in.concStr(a) == in.concStr(b)
}

func prevTok(es []value, i int) (*Tok, bool) {
	if i == 0 {
		return nil, false
	}
	t, ok := es[i-1].(*Tok)
	return t, ok
}

func (in *Interp) tokEqConst(t *Tok, v value) value {
	s, ok := v.(string)
	if ok && (t.verb == "%d" || (t.verb == "json" && !t.isF)) {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil || strconv.FormatInt(n, 10) != s {
			return false
		}
		return mkCmp(linSub(t.l, linConst(ratInt(n))), relEQ)
	}
	return in.concTok(t) == in.concStr(v)
}

func (in *Interp) strCmp(op token.Token, a, b value) value {
	x, y := in.concStr(a), in.concStr(b)
	switch op {
	case token.LSS:
		return x < y
	case token.LEQ:
		return x <= y
	case token.GTR:
		return x > y
	}
	return x >= y
}

// ---------------------------------------------------------------- formatting

// goConcrete converts a concrete interpreted scalar to a native Go value of its kind.
func goScalar(v value, t types.Type) (interface{}, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	switch x := v.(type) {
	case bool:
		return x, true
	case string:
		return x, true
	case float64:
		if b.Kind() == types.Float32 {
			return float32(x), true
		}
		return x, true
	case int64:
		switch b.Kind() {
		case types.Int:
			return int(x), true
		case types.Int8:
			return int8(x), true
		case types.Int16:
			return int16(x), true
		case types.Int32:
			return int32(x), true
		case types.Uint:
			return uint(x), true
		case types.Uint8:
			return uint8(x), true
		case types.Uint16:
			return uint16(x), true
		case types.Uint32:
			return uint32(x), true
		case types.Uint64:
			return uint64(x), true
		case types.Uintptr:
			return uintptr(x), true
		}
		return x, true
	}
	return nil, false
}

// fmtArg renders one operand with a verb.
func (in *Interp) fmtArg(fr *frame, a iface, verb byte, spec string) value {
	if a.t == nil {
		if verb == 'v' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	v := a.v
	if verb == 'T' {
		return a.t.String()
	}
	// Error / String methods
	if verb == 'v' || verb == 's' || verb == 'q' {
		for _, m := range []string{"Error", "String"} {
			if f := in.methodNamed(a.t, m); f != nil {
				if f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && kindOf(f.Signature.Results().At(0).Type()).isStr {
					if p, ok := v.(*value); ok && p == nil {
						return "<nil>"
					}
					v = in.callFn(f, fr, []value{copyVal(a.v)}, nil)
					if s, ok := v.(string); ok {
						return fmt.Sprintf(strings.Replace(spec, "+", "", 1), s)
					}
					return v
				}
			}
		}
	}
	switch x := v.(type) {
	case *Form:
		if in.p.branch(x) {
			return fmt.Sprintf(spec, true)
		}
		return fmt.Sprintf(spec, false)
	case *Lin:
		isF := kindOf(a.t).isFloat
		nice := spec == "%d" || spec == "%v"
		if isF {
			nice = spec == "%v" || spec == "%g" || verbDecimals(spec) >= 0
		}
		if nice {
			if spec == "%v" && !isF {
				spec = "%d"
			}
			return &SStr{els: []value{&Tok{verb: spec, isF: isF, l: x, t: a.t}}}
		}
		r := in.p.concretize(x)
		if isF {
			return fmt.Sprintf(spec, floatOfRat(r))
		}
		g, _ := goScalar(ratToInt64(r), a.t)
		return fmt.Sprintf(spec, g)
	case *SStr:
		if spec == "%s" || spec == "%v" {
			return x
		}
		return fmt.Sprintf(spec, in.concStr(x))
	}
	if g, ok := goScalar(v, a.t); ok {
		return fmt.Sprintf(spec, g)
	}
	return in.fmtCompound(fr, v, a.t, verb, spec)
}

func (in *Interp) fmtCompound(fr *frame, v value, t types.Type, verb byte, spec string) value {
	el := func(x value, et types.Type) value {
		if _, ok := et.Underlying().(*types.Interface); ok {
			return in.fmtArg(fr, x.(iface), verb, spec)
		}
		return in.fmtArg(fr, iface{et, x}, verb, spec)
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		xs := v.([]value)
		if kindOf(u.Elem()).bits == 8 && (verb == 's' || verb == 'q') {
			return in.fmtArg(fr, iface{types.Typ[types.String], mkStr(xs)}, verb, spec)
		}
		var r value = "["
		for i, x := range xs {
			if i > 0 {
				r = concatStr(r, " ")
			}
			r = concatStr(r, el(x, u.Elem()))
		}
		return concatStr(r, "]")
	case *types.Array:
		var r value = "["
		for i, x := range v.(arrayV) {
			if i > 0 {
				r = concatStr(r, " ")
			}
			r = concatStr(r, el(x, u.Elem()))
		}
		return concatStr(r, "]")
	case *types.Struct:
		var r value = "{"
		for i, x := range v.(structV) {
			if i > 0 {
				r = concatStr(r, " ")
			}
			if strings.Contains(spec, "+") {
				r = concatStr(r, u.Field(i).Name()+":")
			}
			r = concatStr(r, el(x, u.Field(i).Type()))
		}
		return concatStr(r, "}")
	case *types.Map:
		return "map[]"
	case *types.Pointer:
		if p := v.(*value); p == nil {
			return "<nil>"
		}
		return "0xc000010000"
	}
	return "?"
}

func (in *Interp) fmtValue(fr *frame, a iface, verb byte, spec string) string {
	return in.concStr(in.fmtArg(fr, a, verb, spec))
}

// sprintf interprets a concrete format.
func (in *Interp) sprintf(fr *frame, format string, args []value) value {
	var out value = ""
	var lit strings.Builder
	flush := func() {
		if lit.Len() > 0 {
			out = concatStr(out, lit.String())
			lit.Reset()
		}
	}
	n := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			lit.WriteByte(c)
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			lit.WriteString("%!(NOVERB)")
			break
		}
		if format[j] == '%' {
			lit.WriteByte('%')
			i = j
			continue
		}
		spec := format[i : j+1]
		verb := format[j]
		i = j
		if n >= len(args) {
			lit.WriteString("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[n].(iface)
		n++
		if verb == 'w' {
			verb = 'v'
			spec = spec[:len(spec)-1] + "v"
		}
		flush()
		out = concatStr(out, in.fmtArg(fr, a, verb, spec))
	}
	if n < len(args) {
		lit.WriteString("%!(EXTRA)")
	}
	flush()
	return out
}

func (in *Interp) sprint(fr *frame, args []value, ln bool) value {
	var out value = ""
	prevStr := true
	for i, x := range args {
		a := x.(iface)
		isStr := a.t != nil && kindOf(a.t).isStr
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = concatStr(out, " ")
		}
		out = concatStr(out, in.fmtArg(fr, a, 'v', "%v"))
		prevStr = isStr
	}
	if ln {
		out = concatStr(out, "\n")
	}
	return out
}
