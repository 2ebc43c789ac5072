package main

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// encoding/json over interpreted values. Symbolic numbers become one token of the text.

type jfield struct {
	idx  []int
	name string
	omit bool
	str  bool
	t    types.Type
}

func jsonFields(s *types.Struct) []jfield {
	var out []jfield
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		tag := reflect.StructTag(s.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		name, opts, _ := strings.Cut(tag, ",")
		if f.Anonymous() && name == "" {
			ft := f.Type()
			if st, ok := ft.Underlying().(*types.Struct); ok {
				for _, e := range jsonFields(st) {
					e.idx = append([]int{i}, e.idx...)
					out = append(out, e)
				}
				continue
			}
		}
		if !f.Exported() {
			continue
		}
		if name == "" {
			name = f.Name()
		}
		out = append(out, jfield{idx: []int{i}, name: name, omit: strings.Contains(opts, "omitempty"), str: strings.Contains(opts, "string"), t: f.Type()})
	}
	// shallower fields win
	best := map[string]int{}
	for _, f := range out {
		if d, ok := best[f.name]; !ok || len(f.idx) < d {
			best[f.name] = len(f.idx)
		}
	}
	res := out[:0:0]
	for _, f := range out {
		if len(f.idx) == best[f.name] {
			res = append(res, f)
		}
	}
	return res
}

type jsonErr struct{ e iface }

func (in *Interp) jfail(msg string) { panic(jsonErr{in.mkErr("json: " + msg)}) }

func isTimeType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func jsonString(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); {
		c := s[i]
		if c < utf8.RuneSelf {
			switch {
			case c == '"' || c == '\\':
				sb.WriteByte('\\')
				sb.WriteByte(c)
			case c == '\n':
				sb.WriteString(`\n`)
			case c == '\r':
				sb.WriteString(`\r`)
			case c == '\t':
				sb.WriteString(`\t`)
			case c == '\b':
				sb.WriteString(`\b`)
			case c == '\f':
				sb.WriteString(`\f`)
			case c < 0x20 || c == '<' || c == '>' || c == '&':
				fmt.Fprintf(&sb, `\u%04x`, c)
			default:
				sb.WriteByte(c)
			}
			i++
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			sb.WriteString(`\ufffd`)
		} else if r == '\u2028' || r == '\u2029' {
			fmt.Fprintf(&sb, `\u%04x`, r)
		} else {
			sb.WriteString(s[i : i+n])
		}
		i += n
	}
	sb.WriteByte('"')
	return sb.String()
}

func lit(out []value, s string) []value {
	for i := 0; i < len(s); i++ {
		out = append(out, int64(s[i]))
	}
	return out
}

func (in *Interp) jsonStr(out []value, v value) []value {
	if s, ok := v.(string); ok {
		return lit(out, jsonString(s))
	}
	out = append(out, int64('"'))
	for _, e := range v.(*SStr).els {
		switch x := e.(type) {
		case int64:
			if x >= 128 {
				out = append(out, x)
				continue
			}
			s := jsonString(string([]byte{byte(x)}))
			out = lit(out, s[1:len(s)-1])
		case *Tok:
			out = append(out, x)
		case *Lin:
			s := jsonString(string([]byte{byte(in.concInt(x))}))
			out = lit(out, s[1:len(s)-1])
		}
	}
	return append(out, int64('"'))
}

func (in *Interp) jsonEnc(fr *frame, out []value, v value, t types.Type) []value {
	t = types.Unalias(t)
	if isTimeType(t) {
		s := v.(structV)
		if l, ok := s[1].(*Lin); ok {
			out = append(out, int64('"'))
			out = append(out, &Tok{verb: "time", l: l})
			return append(out, int64('"'))
		}
		return lit(out, `"`+goTime(s).Format(time.RFC3339Nano)+`"`)
	}
	if _, isI := t.Underlying().(*types.Interface); !isI {
		for _, m := range []string{"MarshalJSON", "MarshalText"} {
			if f := in.methodNamed(t, m); f != nil && f.Signature.Params().Len() == 0 {
				if p, ok := v.(*value); ok && p == nil {
					return lit(out, "null")
				}
				r := in.callFn(f, fr, []value{copyVal(v)}, nil).(tuple)
				if e := r[1].(iface); e.t != nil {
					panic(jsonErr{e})
				}
				b, _ := r[0].([]value)
				if m == "MarshalText" {
					return in.jsonStr(out, mkStr(b))
				}
				return append(out, b...)
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k := kindOf(t)
		switch {
		case k.isBool:
			if in.p.branch(v) {
				return lit(out, "true")
			}
			return lit(out, "false")
		case k.isInt:
			if x, ok := v.(int64); ok {
				if !k.signed {
					return lit(out, strconv.FormatUint(uint64(x), 10))
				}
				return lit(out, strconv.FormatInt(x, 10))
			}
			return append(out, &Tok{verb: "json", l: v.(*Lin), t: t})
		case k.isFloat:
			if x, ok := v.(float64); ok {
				if !isFinite(x) {
					in.jfail("unsupported value: " + fmt.Sprint(x))
				}
				return lit(out, jsonFloat(x))
			}
			return append(out, &Tok{verb: "json", isF: true, l: v.(*Lin), t: t})
		case k.isStr:
			return in.jsonStr(out, v)
		}
	case *types.Struct:
		out = append(out, int64('{'))
		first := true
		for _, f := range jsonFields(u) {
			var fv value = v
			ft := types.Type(u)
			ok := true
			for _, i := range f.idx {
				fv = fv.(structV)[i]
				ft = ft.Underlying().(*types.Struct).Field(i).Type()
			}
			if !ok || f.omit && in.jsonEmpty(fv) {
				continue
			}
			if !first {
				out = append(out, int64(','))
			}
			first = false
			out = lit(out, jsonString(f.name)+":")
			out = in.jsonEnc(fr, out, fv, ft)
		}
		return append(out, int64('}'))
	case *types.Map:
		m := v.(*mapV)
		if m == nil {
			return lit(out, "null")
		}
		kk := kindOf(u.Key())
		if !kk.isStr && !kk.isInt {
			in.jfail("unsupported type: " + t.String())
		}
		type ent struct {
			k string
			e *mapEntry
		}
		var ents []ent
		sym := false
		for _, e := range m.ents {
			if e.deleted {
				continue
			}
			x := ent{e: e}
			switch k := e.k.(type) {
			case string:
				x.k = k
			case int64:
				x.k = strconv.FormatInt(k, 10)
				if !kk.signed {
					x.k = strconv.FormatUint(uint64(k), 10)
				}
			default:
				sym = true
			}
			ents = append(ents, x)
		}
		if !sym {
			sort.Slice(ents, func(i, j int) bool { return ents[i].k < ents[j].k })
		}
		out = append(out, int64('{'))
		for i, x := range ents {
			if i > 0 {
				out = append(out, int64(','))
			}
			if l, ok := x.e.k.(*Lin); ok {
				out = append(out, int64('"'), &Tok{verb: "json", l: l, t: u.Key()}, int64('"'))
			} else if s, ok := x.e.k.(*SStr); ok {
				out = in.jsonStr(out, s)
			} else {
				out = lit(out, jsonString(x.k))
			}
			out = append(out, int64(':'))
			out = in.jsonEnc(fr, out, x.e.v, u.Elem())
		}
		return append(out, int64('}'))
	case *types.Slice:
		s := v.([]value)
		if s == nil {
			return lit(out, "null")
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return lit(out, jsonString(b64(in.concStr(mkStr(s)))))
		}
		return in.jsonList(fr, out, s, u.Elem())
	case *types.Array:
		return in.jsonList(fr, out, v.(arrayV), u.Elem())
	case *types.Pointer:
		p := v.(*value)
		if p == nil {
			return lit(out, "null")
		}
		return in.jsonEnc(fr, out, *p, u.Elem())
	case *types.Interface:
		i := v.(iface)
		if i.t == nil {
			return lit(out, "null")
		}
		return in.jsonEnc(fr, out, i.v, i.t)
	}
	in.jfail("unsupported type: " + t.String())
	return nil
}

func (in *Interp) jsonList(fr *frame, out []value, s []value, et types.Type) []value {
	out = append(out, int64('['))
	for i, x := range s {
		if i > 0 {
			out = append(out, int64(','))
		}
		out = in.jsonEnc(fr, out, x, et)
	}
	return append(out, int64(']'))
}

func (in *Interp) jsonEmpty(v value) bool {
	switch x := v.(type) {
	case bool:
		return !x
	case *Form:
		return !in.p.branch(x)
	case int64:
		return x == 0
	case float64:
		return x == 0
	case *Lin:
		return in.p.branch(mkCmp(x, relEQ))
	case string:
		return x == ""
	case []value:
		return len(x) == 0
	case *mapV:
		return x == nil || x.n == 0
	case *value:
		return x == nil
	case iface:
		return x.t == nil
	}
	return false
}

func b64(s string) string {
	return strings.TrimRight(encB64(s), "")
}

// ---------------------------------------------------------------- decoding

type jparser struct {
	in  *Interp
	fr  *frame
	s   []value
	pos int
	// syntax check only
	skip bool
}

func (p *jparser) ws() {
	for p.pos < len(p.s) {
		c, ok := p.s[p.pos].(int64)
		if !ok || !(c == ' ' || c == '\n' || c == '\t' || c == '\r') {
			return
		}
		p.pos++
	}
}

func (p *jparser) fail(what string) {
	if p.pos >= len(p.s) {
		p.in.jfail("unexpected end of JSON input")
	}
	p.in.jfail("invalid character " + what)
}

func (p *jparser) peek() int64 {
	if p.pos >= len(p.s) {
		p.fail("")
	}
	switch x := p.s[p.pos].(type) {
	case int64:
		return x
	case *Tok:
		return '0'
	case *Lin:
		return p.in.concInt(x)
	}
	p.fail("binary")
	return 0
}

func (p *jparser) expect(s string) {
	for i := 0; i < len(s); i++ {
		if p.peek() != int64(s[i]) {
			p.fail(s)
		}
		p.pos++
	}
}

// str parses a string literal.
func (p *jparser) str() value {
	p.expect(`"`)
	var els []value
	for {
		if p.pos >= len(p.s) {
			p.fail("")
		}
		e := p.s[p.pos]
		c, ok := e.(int64)
		if !ok {
			els = append(els, e)
			p.pos++
			continue
		}
		p.pos++
		switch {
		case c == '"':
			return mkStr(els)
		case c == '\\':
			d := p.peek()
			p.pos++
			switch d {
			case '"', '\\', '/':
				els = append(els, d)
			case 'n':
				els = append(els, int64('\n'))
			case 't':
				els = append(els, int64('\t'))
			case 'r':
				els = append(els, int64('\r'))
			case 'b':
				els = append(els, int64('\b'))
			case 'f':
				els = append(els, int64('\f'))
			case 'u':
				var h strings.Builder
				for i := 0; i < 4; i++ {
					h.WriteByte(byte(p.peek()))
					p.pos++
				}
				n, err := strconv.ParseUint(h.String(), 16, 32)
				if err != nil {
					p.fail("in \\u escape")
				}
				els = lit(els, string(rune(n)))
			default:
				p.fail("in string escape")
			}
		case c < 0x20:
			p.fail("in string literal")
		default:
			els = append(els, c)
		}
	}
}

// number parses a numeric literal: a token or text.
func (p *jparser) number() (*Tok, string) {
	if t, ok := p.s[p.pos].(*Tok); ok {
		p.pos++
		if p.pos < len(p.s) {
			if c, ok := p.s[p.pos].(int64); ok && strings.ContainsRune("0123456789.eE", rune(c)) {
				panic(pathEnd{"unsupported", "digits after a symbolic number"})
			}
		}
		return t, ""
	}
	var sb strings.Builder
	for p.pos < len(p.s) {
		c, ok := p.s[p.pos].(int64)
		if !ok {
			if _, isT := p.s[p.pos].(*Tok); isT {
				panic(pathEnd{"unsupported", "symbolic digits in a number"})
			}
			c = p.in.concInt(p.s[p.pos])
		}
		if !strings.ContainsRune("0123456789+-.eE", rune(c)) {
			break
		}
		sb.WriteByte(byte(c))
		p.pos++
	}
	if _, err := strconv.ParseFloat(sb.String(), 64); err != nil && sb.Len() == 0 {
		p.fail("looking for beginning of value")
	}
	return nil, sb.String()
}

func (in *Interp) tokValue(t *Tok) value { return t.l }

// any decodes into an empty interface.
func (p *jparser) any() iface {
	p.ws()
	in := p.in
	f64 := types.Typ[types.Float64]
	switch c := p.peek(); {
	case c == '{':
		p.pos++
		m := newMap()
		anyT := types.NewInterfaceType(nil, nil)
		mt := types.NewMap(types.Typ[types.String], in.P.anyType())
		_ = anyT
		p.members(func(k value) {
			v := p.any()
			if !p.skip {
				in.mapSet(m, k, v)
			}
		})
		return iface{mt, m}
	case c == '[':
		p.pos++
		l := []value{}
		p.elems(func() { l = append(l, p.any()) })
		return iface{types.NewSlice(in.P.anyType()), l}
	case c == '"':
		return iface{types.Typ[types.String], p.str()}
	case c == 't':
		p.expect("true")
		return iface{types.Typ[types.Bool], true}
	case c == 'f':
		p.expect("false")
		return iface{types.Typ[types.Bool], false}
	case c == 'n':
		p.expect("null")
		return iface{}
	}
	t, s := p.number()
	if p.skip {
		return iface{}
	}
	if t != nil {
		v, ok := in.tokFloat(t)
		if !ok {
			panic(pathEnd{"unsupported", "token " + t.verb})
		}
		return iface{f64, v}
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		in.jfail("invalid number")
	}
	return iface{f64, f}
}

func (p *jparser) members(f func(k value)) {
	p.ws()
	if p.peek() == '}' {
		p.pos++
		return
	}
	for {
		p.ws()
		k := p.str()
		p.ws()
		p.expect(":")
		f(k)
		p.ws()
		c := p.peek()
		p.pos++
		if c == '}' {
			return
		}
		if c != ',' {
			p.fail("after object key:value pair")
		}
	}
}

func (p *jparser) elems(f func()) {
	p.ws()
	if p.peek() == ']' {
		p.pos++
		return
	}
	for {
		f()
		p.ws()
		c := p.peek()
		p.pos++
		if c == ']' {
			return
		}
		if c != ',' {
			p.fail("after array element")
		}
	}
}

func (p *jparser) typeErr(what string, t types.Type) {
	// the real decoder records the error and continues; the outcome reported is the same error
	if p.in.jsonSaved.t == nil {
		p.in.jsonSaved = p.in.mkErr("json: cannot unmarshal " + what + " into Go value of type " + t.String())
	}
}

// into decodes the next value into *cell of type t.
func (p *jparser) into(cell *value, t types.Type) {
	p.ws()
	in := p.in
	t = types.Unalias(t)
	c := p.peek()
	if c == 'n' {
		p.expect("null")
		switch t.Underlying().(type) {
		case *types.Interface, *types.Pointer, *types.Map, *types.Slice:
			*cell = zero(t)
		}
		return
	}
	if isTimeType(t) {
		if c != '"' {
			in.jfail("Time.UnmarshalJSON: input is not a JSON string")
		}
		v := p.str()
		s := zero(t).(structV)
		if tk, ok := symTok(v); ok && tk.verb == "time" {
			s[1] = value(tk.l)
		} else {
			tm, err := time.Parse(time.RFC3339, in.concStr(v))
			if err != nil {
				in.jfail(err.Error())
			}
			if tm.Nanosecond() != 0 {
				panic(pathEnd{"unsupported", "fractional time"})
			}
			s[1] = tm.Unix() + unixToInternal
		}
		storeVal(cell, s)
		return
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		ptr := (*cell).(*value)
		if ptr == nil {
			ptr = cellOf(zero(pt.Elem()))
			*cell = ptr
		}
		p.into(ptr, pt.Elem())
		return
	}
	if f := in.methodNamed(types.NewPointer(t), "UnmarshalJSON"); f != nil {
		start := p.pos
		(&jparser{in: in, s: p.s, pos: p.pos, skip: true}).anyTo(&p.pos)
		raw := append([]value(nil), p.s[start:p.pos]...)
		e := in.callFn(f, p.fr, []value{cell, raw}, nil).(iface)
		if e.t != nil {
			panic(jsonErr{e})
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if u.NumMethods() == 0 {
			*cell = p.any()
			return
		}
	case *types.Struct:
		if c != '{' {
			p.any()
			p.typeErr("value", t)
			return
		}
		p.pos++
		fs := jsonFields(u)
		p.members(func(k value) {
			ks := in.concStr(k)
			var f *jfield
			for i := range fs {
				if fs[i].name == ks {
					f = &fs[i]
					break
				}
			}
			if f == nil {
				for i := range fs {
					if strings.EqualFold(fs[i].name, ks) {
						f = &fs[i]
						break
					}
				}
			}
			if f == nil {
				p.ws()
				p.any()
				return
			}
			fc := cell
			ft := types.Type(u)
			for _, i := range f.idx {
				fc = &(*fc).(structV)[i]
				ft = ft.Underlying().(*types.Struct).Field(i).Type()
			}
			p.into(fc, ft)
		})
		return
	case *types.Map:
		if c != '{' {
			p.any()
			p.typeErr("value", t)
			return
		}
		p.pos++
		m := (*cell).(*mapV)
		if m == nil {
			m = newMap()
			*cell = m
		}
		kk := kindOf(u.Key())
		if !kk.isStr && !kk.isInt {
			p.pos--
			p.any()
			p.typeErr("object", t)
			return
		}
		p.members(func(k value) {
			ev := cellOf(zero(u.Elem()))
			p.into(ev, u.Elem())
			var kv value = k
			if kk.isInt {
				r := in.parseInt(k, int64(10), int64(kk.bits), !kk.signed).(tuple)
				if e := r[1].(iface); e.t != nil {
					p.typeErr("number "+"key", u.Key())
					return
				}
				kv = r[0]
			}
			in.mapSet(m, kv, *ev)
		})
		return
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && c == '"' {
			d, err := decB64(in.concStr(p.str()))
			if err != nil {
				in.jfail(err.Error())
			}
			*cell = append([]value{}, strEls(d)...)
			return
		}
		if c != '[' {
			p.any()
			p.typeErr("value", t)
			return
		}
		p.pos++
		old, _ := (*cell).([]value)
		l := old[:0]
		if old == nil {
			l = []value{}
		}
		n := 0
		p.elems(func() {
			if n < cap(l) {
				l = l[:n+1]
				if l[n] == nil {
					l[n] = zero(u.Elem())
				}
			} else {
				l = appendVals(l[:n], []value{zero(u.Elem())}, u.Elem())
			}
			p.into(&l[n], u.Elem())
			n++
		})
		*cell = l[:n]
		return
	case *types.Array:
		if c != '[' {
			p.any()
			p.typeErr("value", t)
			return
		}
		p.pos++
		a := (*cell).(arrayV)
		n := 0
		p.elems(func() {
			if n < len(a) {
				p.into(&a[n], u.Elem())
			} else {
				p.any()
			}
			n++
		})
		for ; n < len(a); n++ {
			a[n] = zero(u.Elem())
		}
		return
	case *types.Basic:
		k := kindOf(t)
		switch {
		case c == '"':
			s := p.str()
			if !k.isStr {
				p.typeErr("string", t)
				return
			}
			*cell = s
			return
		case c == 't' || c == 'f':
			if c == 't' {
				p.expect("true")
			} else {
				p.expect("false")
			}
			if !k.isBool {
				p.typeErr("bool", t)
				return
			}
			*cell = c == 't'
			return
		case c == '{' || c == '[':
			p.any()
			p.typeErr("value", t)
			return
		}
		tk, s := p.number()
		switch {
		case k.isFloat:
			if tk != nil {
				v, ok := in.tokFloat(tk)
				if !ok {
					panic(pathEnd{"unsupported", "token " + tk.verb})
				}
				if l, isL := v.(*Lin); isL && k.bits == 32 {
					v = in.roundF(l, 32)
				}
				*cell = v
				return
			}
			f, err := strconv.ParseFloat(s, k.bits)
			if err != nil {
				p.typeErr("number "+s, t)
				return
			}
			*cell = f
			return
		case k.isInt:
			if tk != nil {
				l := tk.l
				if tk.isF && !(l.allInt() && l.gran() == 0) {
					// integral values only
					q := in.floorDiv(l, ratOne)
					if !in.p.branch(mkCmp(linSub(l, q), relEQ)) {
						p.typeErr("number", t)
						return
					}
					l = q
				}
				mn, mx := k.rng()
				if !in.p.branch(andV(mkCmp(linSub(l, linConst(mn)), relGE), mkCmp(linSub(l, linConst(mx)), relLE))) {
					p.typeErr("number", t)
					return
				}
				*cell = simp(l, false)
				return
			}
			if k.signed {
				n, err := strconv.ParseInt(s, 10, k.bits)
				if err != nil {
					p.typeErr("number "+s, t)
					return
				}
				*cell = n
			} else {
				n, err := strconv.ParseUint(s, 10, k.bits)
				if err != nil {
					p.typeErr("number "+s, t)
					return
				}
				*cell = int64(n)
			}
			return
		}
		p.typeErr("number", t)
		return
	}
	panic(pathEnd{"unsupported", "json into " + t.String()})
}

func (P *Program) anyType() types.Type { return types.Universe.Lookup("any").Type().Underlying() }

func (in *Interp) jsonMarshal(fr *frame, i iface) (out []value, err iface) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(jsonErr)
			if !ok {
				panic(r)
			}
			out, err = nil, e.e
		}
	}()
	if i.t == nil {
		return lit(nil, "null"), nilIface
	}
	return in.jsonEnc(fr, nil, i.v, i.t), nilIface
}

func (in *Interp) jsonUnmarshal(fr *frame, data []value, dst iface, partial bool) (n int, err iface) {
	p := &jparser{in: in, fr: fr, s: data}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(jsonErr)
			if !ok {
				panic(r)
			}
			n, err = p.pos, e.e
		}
	}()
	pt, ok := dst.t.(*types.Pointer)
	if dst.t == nil || !ok || dst.v.(*value) == nil {
		in.jfail("Unmarshal(non-pointer)")
	}
	// syntax is checked before anything is stored
	saveErr := in.jsonSaved
	in.jsonSaved = iface{}
	chk := &jparser{in: in, fr: fr, s: data, skip: true}
	chk.any()
	chk.ws()
	if !partial && chk.pos != len(data) {
		in.jsonSaved = saveErr
		in.jfail("invalid character after top-level value")
	}
	p.into(dst.v.(*value), pt.Elem())
	e := in.jsonSaved
	in.jsonSaved = saveErr
	return p.pos, e
}

type jsonDec struct {
	r    iface
	buf  []value
	read bool
}

type jsonEncoder struct{ w iface }

func addJSON(T map[string]stubFn) {
	T["encoding/json.Marshal"] = func(in *Interp, fr *frame, a []value) value {
		b, e := in.jsonMarshal(fr, a[0].(iface))
		return tuple{b, e}
	}
	T["encoding/json.MarshalIndent"] = T["encoding/json.Marshal"]
	T["encoding/json.Unmarshal"] = func(in *Interp, fr *frame, a []value) value {
		b, _ := a[0].([]value)
		_, e := in.jsonUnmarshal(fr, b, a[1].(iface), false)
		return e
	}
	T["encoding/json.Valid"] = func(in *Interp, fr *frame, a []value) (res value) {
		b, _ := a[0].([]value)
		p := &jparser{in: in, fr: fr, s: b}
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(jsonErr); !ok {
					panic(r)
				}
				res = false
			}
		}()
		p.any()
		p.ws()
		return p.pos == len(b)
	}
	T["encoding/json.NewDecoder"] = func(in *Interp, fr *frame, a []value) value {
		c := cellOf(zero(in.P.typeOf("encoding/json", "Decoder")))
		in.natives[c] = &opaque{kind: "jdec", data: &jsonDec{r: a[0].(iface)}}
		return c
	}
	T["(*encoding/json.Decoder).Decode"] = func(in *Interp, fr *frame, a []value) value {
		d := in.natives[in.deref(a[0])].data.(*jsonDec)
		if !d.read {
			b, e := in.readAll(fr, d.r)
			if e.t != nil {
				return e
			}
			d.buf, d.read = b, true
		}
		p := &jparser{in: in, s: d.buf}
		p.ws()
		if p.pos >= len(d.buf) {
			return in.ioEOF()
		}
		n, e := in.jsonUnmarshal(fr, d.buf, a[1].(iface), true)
		d.buf = d.buf[n:]
		return e
	}
	T["(*encoding/json.Decoder).More"] = func(in *Interp, fr *frame, a []value) value {
		d := in.natives[in.deref(a[0])].data.(*jsonDec)
		p := &jparser{in: in, s: d.buf}
		p.ws()
		return p.pos < len(d.buf)
	}
	T["encoding/json.NewEncoder"] = func(in *Interp, fr *frame, a []value) value {
		c := cellOf(zero(in.P.typeOf("encoding/json", "Encoder")))
		in.natives[c] = &opaque{kind: "jenc", data: &jsonEncoder{w: a[0].(iface)}}
		return c
	}
	T["(*encoding/json.Encoder).SetIndent"] = func(in *Interp, fr *frame, a []value) value { return nil }
	T["(*encoding/json.Encoder).Encode"] = func(in *Interp, fr *frame, a []value) value {
		d := in.natives[in.deref(a[0])].data.(*jsonEncoder)
		b, e := in.jsonMarshal(fr, a[1].(iface))
		if e.t != nil {
			return e
		}
		b = append(b, int64('\n'))
		return in.callMethod(fr, d.w, "Write", b).(tuple)[1]
	}
}

var _ = big.NewInt

func (p *jparser) anyTo(pos *int) {
	p.any()
	*pos = p.pos
}
