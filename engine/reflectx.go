package main

import (
	"encoding/base64"
	"go/token"
	"go/types"
	"reflect"
)

var mulToken = token.MUL
var tokADD = token.ADD

func encB64(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }
func decB64(s string) (string, error) {
	b, err := base64.StdEncoding.DecodeString(s)
	return string(b), err
}

// A small part of package reflect: enough to look at decoded JSON.

type rval struct {
	t    types.Type // static type (interface types keep their dynamic value inside)
	v    value
	cell *value // where it lives, when addressable
}

type rtype struct{ t types.Type }

type riter struct {
	m    rval
	ents []*mapEntry
	i    int
}

func reflectKind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		}
	case *types.Map:
		return reflect.Map
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Struct:
		return reflect.Struct
	case *types.Pointer:
		return reflect.Ptr
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func addReflect(T map[string]stubFn) {
	mkV := func(in *Interp, r rval) value {
		s := zero(in.P.typeOf("reflect", "Value")).(structV)
		c := new(value)
		in.natives[c] = &opaque{kind: "rval", data: r}
		s[1] = c
		s[2] = int64(1)
		return s
	}
	getV := func(in *Interp, v value) rval {
		c, _ := v.(structV)[1].(*value)
		if c == nil || in.natives[c] == nil {
			return rval{}
		}
		return in.natives[c].data.(rval)
	}
	mkT := func(in *Interp, t types.Type) value {
		if in.rtypes == nil {
			in.rtypes = map[string]*value{}
		}
		k := t.String()
		c := in.rtypes[k]
		rt := in.P.typeOf("reflect", "rtype")
		if c == nil {
			c = cellOf(zero(rt))
			in.rtypes[k] = c
			in.natives[c] = &opaque{kind: "rtype", data: t}
		}
		return iface{types.NewPointer(rt), c}
	}
	T["reflect.TypeOf"] = func(in *Interp, fr *frame, a []value) value {
		i := a[0].(iface)
		if i.t == nil {
			return iface{}
		}
		return mkT(in, i.t)
	}
	T["(*reflect.rtype).Kind"] = func(in *Interp, fr *frame, a []value) value {
		return int64(reflectKind(in.natives[in.deref(a[0])].data.(types.Type)))
	}
	T["(*reflect.rtype).String"] = func(in *Interp, fr *frame, a []value) value {
		return types.TypeString(in.natives[in.deref(a[0])].data.(types.Type), func(p *types.Package) string { return p.Name() })
	}
	T["(*reflect.rtype).Name"] = T["(*reflect.rtype).String"]
	T["reflect.ValueOf"] = func(in *Interp, fr *frame, a []value) value {
		i := a[0].(iface)
		if i.t == nil {
			return zero(in.P.typeOf("reflect", "Value"))
		}
		return mkV(in, rval{t: i.t, v: i.v})
	}
	m := "(reflect.Value)."
	T[m+"Kind"] = func(in *Interp, fr *frame, a []value) value {
		r := getV(in, a[0])
		if r.t == nil {
			return int64(0)
		}
		return int64(reflectKind(r.t))
	}
	T[m+"IsValid"] = func(in *Interp, fr *frame, a []value) value { return getV(in, a[0]).t != nil }
	T[m+"Type"] = func(in *Interp, fr *frame, a []value) value { return mkT(in, getV(in, a[0]).t) }
	T[m+"Elem"] = func(in *Interp, fr *frame, a []value) value {
		r := getV(in, a[0])
		if r.t == nil {
			in.goPanic("reflect: call of reflect.Value.Elem on zero Value")
		}
		switch u := r.t.Underlying().(type) {
		case *types.Interface:
			i := r.v.(iface)
			if i.t == nil {
				return zero(in.P.typeOf("reflect", "Value"))
			}
			return mkV(in, rval{t: i.t, v: i.v})
		case *types.Pointer:
			p := r.v.(*value)
			if p == nil {
				return zero(in.P.typeOf("reflect", "Value"))
			}
			return mkV(in, rval{t: u.Elem(), v: *p, cell: p})
		}
		in.goPanic("reflect: call of reflect.Value.Elem on " + r.t.String() + " Value")
		return nil
	}
	T[m+"Interface"] = func(in *Interp, fr *frame, a []value) value {
		r := getV(in, a[0])
		if i, ok := r.v.(iface); ok {
			if _, isI := r.t.Underlying().(*types.Interface); isI {
				return i
			}
		}
		return iface{r.t, copyVal(r.v)}
	}
	T[m+"IsNil"] = func(in *Interp, fr *frame, a []value) value {
		switch x := getV(in, a[0]).v.(type) {
		case *value:
			return x == nil
		case *mapV:
			return x == nil
		case []value:
			return x == nil
		case iface:
			return x.t == nil
		}
		return false
	}
	T[m+"Len"] = func(in *Interp, fr *frame, a []value) value {
		switch x := getV(in, a[0]).v.(type) {
		case *mapV:
			if x == nil {
				return int64(0)
			}
			return int64(x.n)
		case []value:
			return int64(len(x))
		case string:
			return int64(len(x))
		case arrayV:
			return int64(len(x))
		}
		panic(pathEnd{"unsupported", "reflect Len"})
	}
	T[m+"Index"] = func(in *Interp, fr *frame, a []value) value {
		r := getV(in, a[0])
		i := int(in.concInt(a[1]))
		switch x := r.v.(type) {
		case []value:
			if i < 0 || i >= len(x) {
				in.goPanic("reflect: slice index out of range")
			}
			return mkV(in, rval{t: r.t.Underlying().(*types.Slice).Elem(), v: x[i], cell: &x[i]})
		case arrayV:
			return mkV(in, rval{t: r.t.Underlying().(*types.Array).Elem(), v: x[i]})
		}
		panic(pathEnd{"unsupported", "reflect Index"})
	}
	scalar := func(in *Interp, fr *frame, a []value) value { return getV(in, a[0]).v }
	T[m+"Bool"], T[m+"Int"], T[m+"Float"], T[m+"Uint"] = scalar, scalar, scalar, scalar
	T[m+"String"] = func(in *Interp, fr *frame, a []value) value {
		r := getV(in, a[0])
		if r.t == nil {
			return "<invalid Value>"
		}
		if kindOf(r.t).isStr {
			return r.v
		}
		return "<" + r.t.String() + " Value>"
	}
	T[m+"MapRange"] = func(in *Interp, fr *frame, a []value) value {
		r := getV(in, a[0])
		mv, ok := r.v.(*mapV)
		if !ok {
			in.goPanic("reflect: call of reflect.Value.MapRange on non-map Value")
		}
		it := &riter{m: r, i: -1}
		if mv != nil {
			for _, e := range mv.ents {
				if !e.deleted {
					it.ents = append(it.ents, e)
				}
			}
			if in.hn.MapOrder && len(it.ents) > 1 && len(it.ents) <= 4 {
				in.p.mapOrd = true
				var o []*mapEntry
				rest := it.ents
				for len(rest) > 0 {
					k := in.p.choose(len(rest))
					o = append(o, rest[k])
					rest = append(append([]*mapEntry{}, rest[:k]...), rest[k+1:]...)
				}
				it.ents = o
			}
		}
		c := cellOf(zero(in.P.typeOf("reflect", "MapIter")))
		in.natives[c] = &opaque{kind: "riter", data: it}
		return c
	}
	T[m+"MapKeys"] = func(in *Interp, fr *frame, a []value) value {
		r := getV(in, a[0])
		var out []value
		if mv := r.v.(*mapV); mv != nil {
			for _, e := range mv.ents {
				if !e.deleted {
					out = append(out, mkV(in, rval{t: r.t.Underlying().(*types.Map).Key(), v: e.k}))
				}
			}
		}
		return out
	}
	T[m+"MapIndex"] = func(in *Interp, fr *frame, a []value) value {
		r := getV(in, a[0])
		e := in.mapFind(r.v.(*mapV), getV(in, a[1]).v)
		if e == nil {
			return zero(in.P.typeOf("reflect", "Value"))
		}
		return mkV(in, rval{t: r.t.Underlying().(*types.Map).Elem(), v: e.v})
	}
	itOf := func(in *Interp, v value) *riter { return in.natives[in.deref(v)].data.(*riter) }
	mi := "(*reflect.MapIter)."
	T[mi+"Next"] = func(in *Interp, fr *frame, a []value) value {
		it := itOf(in, a[0])
		it.i++
		return it.i < len(it.ents)
	}
	T[mi+"Key"] = func(in *Interp, fr *frame, a []value) value {
		it := itOf(in, a[0])
		return mkV(in, rval{t: it.m.t.Underlying().(*types.Map).Key(), v: it.ents[it.i].k})
	}
	T[mi+"Value"] = func(in *Interp, fr *frame, a []value) value {
		it := itOf(in, a[0])
		return mkV(in, rval{t: it.m.t.Underlying().(*types.Map).Elem(), v: it.ents[it.i].v})
	}
	T["reflect.DeepEqual"] = func(in *Interp, fr *frame, a []value) value {
		return in.deepEq(a[0], a[1], 0)
	}
}

// deepEq compares values structurally.
func (in *Interp) deepEq(a, b value, depth int) value {
	if depth > 50 {
		panic(pathEnd{"unsupported", "deep comparison"})
	}
	switch x := a.(type) {
	case iface:
		y, ok := b.(iface)
		if !ok || (x.t == nil) != (y.t == nil) {
			return false
		}
		if x.t == nil {
			return true
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		return in.deepEq(x.v, y.v, depth+1)
	case *value:
		y, ok := b.(*value)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		return in.deepEq(*x, *y, depth+1)
	case []value:
		y, ok := b.([]value)
		if !ok || len(x) != len(y) || (x == nil) != (y == nil) {
			return false
		}
		return in.deepList(x, y, depth)
	case structV:
		return in.deepList(x, b.(structV), depth)
	case arrayV:
		return in.deepList(x, b.(arrayV), depth)
	case *mapV:
		y := b.(*mapV)
		if x == y {
			return true
		}
		if x == nil || y == nil || x.n != y.n {
			return false
		}
		var r value = true
		for _, e := range x.ents {
			if e.deleted {
				continue
			}
			o := in.mapFind(y, e.k)
			if o == nil {
				return false
			}
			r = andV(r, in.deepEq(e.v, o.v, depth+1))
		}
		return r
	}
	return in.equal(a, b)
}

func (in *Interp) deepList(x, y []value, depth int) value {
	var r value = true
	for i := range x {
		r = andV(r, in.deepEq(x[i], y[i], depth+1))
		if r == false {
			return false
		}
	}
	return r
}
