package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Linear terms over bounded variables with exact rational coefficients.

type Var struct {
	id     int
	isInt  bool
	lo, hi *big.Rat
	name   string
	input  bool
	def    bool // constrained by a definition (its value is not free)
	ev     func(Model) *big.Rat
	of     *Lin // the value this is the float rounding of
	mant   int
}

type Term struct {
	v *Var
	k *big.Rat
}

type Lin struct {
	c      *big.Rat
	ts     []Term
	lo, hi *big.Rat
	g      int // granularity: value is a multiple of 2^-g; -1: unknown; -2: not computed
}

var (
	ratZero = new(big.Rat)
	ratOne  = big.NewRat(1, 1)
)

func ratInt(i int64) *big.Rat { return new(big.Rat).SetInt64(i) }

func linConst(c *big.Rat) *Lin { return &Lin{c: c, g: -2} }

func linVar(v *Var) *Lin {
	return &Lin{c: ratZero, ts: []Term{{v, ratOne}}, g: -2}
}

func (a *Lin) isConst() bool { return len(a.ts) == 0 }

func mulK(k, x *big.Rat) *big.Rat {
	switch {
	case k == ratOne:
		return x
	case x == ratOne:
		return k
	case k == ratMinusOne && x == ratMinusOne:
		return ratOne
	}
	return new(big.Rat).Mul(x, k)
}

func linAddScaled(a, b *Lin, k *big.Rat) *Lin {
	r := &Lin{g: -2}
	if b.c.Sign() == 0 {
		r.c = a.c
	} else if k == ratOne {
		r.c = new(big.Rat).Add(a.c, b.c)
	} else if k == ratMinusOne {
		r.c = new(big.Rat).Sub(a.c, b.c)
	} else {
		t := new(big.Rat).Mul(b.c, k)
		r.c = t.Add(a.c, t)
	}
	ts := make([]Term, 0, len(a.ts)+len(b.ts))
	i, j := 0, 0
	for i < len(a.ts) || j < len(b.ts) {
		switch {
		case j >= len(b.ts) || (i < len(a.ts) && a.ts[i].v.id < b.ts[j].v.id):
			ts = append(ts, a.ts[i])
			i++
		case i >= len(a.ts) || b.ts[j].v.id < a.ts[i].v.id:
			ts = append(ts, Term{b.ts[j].v, mulK(k, b.ts[j].k)})
			j++
		default:
			kk := mulK(k, b.ts[j].k)
			if !(kk == ratMinusOne && a.ts[i].k == ratOne || kk == ratOne && a.ts[i].k == ratMinusOne) {
				s := new(big.Rat).Add(kk, a.ts[i].k)
				if s.Sign() != 0 {
					ts = append(ts, Term{a.ts[i].v, s})
				}
			}
			i++
			j++
		}
	}
	r.ts = ts
	return r
}

func linAdd(a, b *Lin) *Lin { return linAddScaled(a, b, ratOne) }

var ratMinusOne = big.NewRat(-1, 1)

func linSub(a, b *Lin) *Lin { return linAddScaled(a, b, ratMinusOne) }

func linScale(a *Lin, k *big.Rat) *Lin {
	if k.Sign() == 0 {
		return linConst(ratZero)
	}
	r := &Lin{c: new(big.Rat).Mul(a.c, k), g: -2}
	r.ts = make([]Term, len(a.ts))
	for i, t := range a.ts {
		r.ts[i] = Term{t.v, new(big.Rat).Mul(t.k, k)}
	}
	return r
}

func (a *Lin) bounds() (*big.Rat, *big.Rat) {
	if a.lo == nil {
		lo := new(big.Rat).Set(a.c)
		hi := new(big.Rat).Set(a.c)
		var t big.Rat
		for _, x := range a.ts {
			if x.k == ratOne {
				lo.Add(lo, x.v.lo)
				hi.Add(hi, x.v.hi)
			} else if x.k == ratMinusOne {
				lo.Sub(lo, x.v.hi)
				hi.Sub(hi, x.v.lo)
			} else if x.k.Sign() > 0 {
				lo.Add(lo, t.Mul(x.k, x.v.lo))
				hi.Add(hi, t.Mul(x.k, x.v.hi))
			} else {
				lo.Add(lo, t.Mul(x.k, x.v.hi))
				hi.Add(hi, t.Mul(x.k, x.v.lo))
			}
		}
		a.lo, a.hi = lo, hi
	}
	return a.lo, a.hi
}

func dyadicG(r *big.Rat) int {
	d := r.Denom()
	if d.IsInt64() && d.Int64() == 1 {
		return 0
	}
	n := d.BitLen() - 1
	if int(d.TrailingZeroBits()) == n {
		return n
	}
	return -1
}

// gran returns g such that the value is always a multiple of 2^-g, or -1.
func (a *Lin) gran() int {
	if a.g == -2 {
		g := dyadicG(a.c)
		if g >= 0 {
			for _, t := range a.ts {
				if !t.v.isInt {
					g = -1
					break
				}
				tg := dyadicG(t.k)
				if tg < 0 {
					g = -1
					break
				}
				if tg > g {
					g = tg
				}
			}
		}
		a.g = g
	}
	return a.g
}

func (a *Lin) allInt() bool {
	for _, t := range a.ts {
		if !t.v.isInt {
			return false
		}
	}
	return true
}

func (a *Lin) maxAbs() *big.Rat {
	lo, hi := a.bounds()
	l := new(big.Rat).Abs(lo)
	h := new(big.Rat).Abs(hi)
	if l.Cmp(h) > 0 {
		return l
	}
	return h
}

var rat2p53 = new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 53))
var rat2p24 = new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 24))

func pow2(n int) *big.Rat {
	if n >= 0 {
		return new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(n)))
	}
	return new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), uint(-n)))
}

// exactFloat tells whether every value of a is exactly representable.
func (a *Lin) exactFloat(mant int) bool {
	g := a.gran()
	if g < 0 || g > 1000 {
		return false
	}
	m := a.maxAbs()
	lim := rat2p53
	if mant == 24 {
		lim = rat2p24
	}
	return new(big.Rat).Mul(m, pow2(g)).Cmp(lim) <= 0
}

func (a *Lin) String() string {
	var sb strings.Builder
	for i, t := range a.ts {
		if i > 0 {
			sb.WriteString(" + ")
		}
		fmt.Fprintf(&sb, "%s*v%d", t.k.RatString(), t.v.id)
	}
	if a.c.Sign() != 0 || len(a.ts) == 0 {
		if len(a.ts) > 0 {
			sb.WriteString(" + ")
		}
		sb.WriteString(a.c.RatString())
	}
	return sb.String()
}

// ---------------------------------------------------------------- formulas

const (
	relLE = iota // sig <= c
	relGE        // sig >= c
	relLT        // sig <  c
	relGT        // sig >  c
	relEQ        // sig == c
	relNE        // sig != c
	opAnd
	opOr
)

// Form is a normalised atom (primitive signature compared with a constant) or a conjunction/disjunction.
type Form struct {
	op   int
	sig  *Lin // primitive, no constant
	key  string
	c    *big.Rat
	a, b *Form
}

func sigKey(l *Lin) string {
	b := make([]byte, 0, 16*len(l.ts))
	for _, t := range l.ts {
		b = strconv.AppendInt(b, int64(t.v.id), 36)
		b = append(b, ':')
		if t.k.IsInt() && t.k.Num().IsInt64() {
			b = strconv.AppendInt(b, t.k.Num().Int64(), 10)
		} else {
			b = append(b, t.k.RatString()...)
		}
		b = append(b, ' ')
	}
	return string(b)
}

// normalise returns (sig, scale>0 or <0, ) such that l - l.c = scale * sig.
func normalise(l *Lin) (*Lin, *big.Rat) {
	if len(l.ts) == 1 {
		return &Lin{c: ratZero, ts: []Term{{l.ts[0].v, ratOne}}, g: -2}, l.ts[0].k
	}
	unit := true
	for _, x := range l.ts {
		if x.k != ratOne && x.k != ratMinusOne {
			unit = false
			break
		}
	}
	if unit {
		if l.ts[0].k == ratOne {
			return &Lin{c: ratZero, ts: l.ts, g: -2}, ratOne
		}
		s := &Lin{c: ratZero, g: -2, ts: make([]Term, len(l.ts))}
		for i, x := range l.ts {
			k := ratOne
			if x.k == ratOne {
				k = ratMinusOne
			}
			s.ts[i] = Term{x.v, k}
		}
		return s, ratMinusOne
	}
	den := big.NewInt(1)
	var g, t big.Int
	for _, x := range l.ts {
		d := x.k.Denom()
		g.GCD(nil, nil, den, d)
		t.Div(d, &g)
		den = new(big.Int).Mul(den, &t)
	}
	var num *big.Int
	for _, x := range l.ts {
		n := new(big.Int).Mul(x.k.Num(), new(big.Int).Div(den, x.k.Denom()))
		n.Abs(n)
		if num == nil {
			num = n
		} else {
			num = new(big.Int).GCD(nil, nil, num, n)
		}
	}
	scale := new(big.Rat).SetFrac(num, den)
	if l.ts[0].k.Sign() < 0 {
		scale.Neg(scale)
	}
	inv := new(big.Rat).Inv(scale)
	s := &Lin{c: ratZero, g: -2, ts: make([]Term, len(l.ts))}
	for i, x := range l.ts {
		s.ts[i] = Term{x.v, new(big.Rat).Mul(x.k, inv)}
	}
	return s, scale
}

func ratFloor(r *big.Rat) *big.Rat {
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(r.Num(), r.Denom(), m)
	return new(big.Rat).SetInt(q)
}

func ratCeil(r *big.Rat) *big.Rat {
	if r.IsInt() {
		return r
	}
	return new(big.Rat).Add(ratFloor(r), ratOne)
}

// mkCmp builds l REL 0; the result is bool or *Form.
func mkCmp(l *Lin, rel int) value {
	if l.isConst() {
		s := l.c.Sign()
		switch rel {
		case relLE:
			return s <= 0
		case relLT:
			return s < 0
		case relGE:
			return s >= 0
		case relGT:
			return s > 0
		case relEQ:
			return s == 0
		default:
			return s != 0
		}
	}
	sig, scale := normalise(l)
	// scale*sig + c REL 0  <=> sig REL' -c/scale
	var c *big.Rat
	switch {
	case l.c.Sign() == 0:
		c = ratZero
	case scale == ratOne:
		c = new(big.Rat).Neg(l.c)
	case scale == ratMinusOne:
		c = l.c
	default:
		c = new(big.Rat).Quo(new(big.Rat).Neg(l.c), scale)
	}
	if scale.Sign() < 0 {
		switch rel {
		case relLE:
			rel = relGE
		case relGE:
			rel = relLE
		case relLT:
			rel = relGT
		case relGT:
			rel = relLT
		}
	}
	if sig.allInt() {
		switch rel {
		case relLT:
			rel = relLE
			c = new(big.Rat).Sub(ratCeil(c), ratOne)
		case relGT:
			rel = relGE
			c = new(big.Rat).Add(ratFloor(c), ratOne)
		case relLE:
			c = ratFloor(c)
		case relGE:
			c = ratCeil(c)
		case relEQ:
			if !c.IsInt() {
				return false
			}
		case relNE:
			if !c.IsInt() {
				return true
			}
		}
	}
	f := &Form{op: rel, sig: sig, c: c, key: sigKey(sig)}
	lo, hi := sig.bounds()
	if v, ok := decideBounds(f, lo, hi, false, false); ok {
		return v
	}
	return f
}

func decideBounds(f *Form, lo, hi *big.Rat, loS, hiS bool) (bool, bool) {
	cl := lo.Cmp(f.c) // lo vs c
	ch := hi.Cmp(f.c)
	switch f.op {
	case relLE:
		if ch <= 0 {
			return true, true
		}
		if cl > 0 || (cl == 0 && loS) {
			return false, true
		}
	case relLT:
		if ch < 0 || (ch == 0 && hiS) {
			return true, true
		}
		if cl >= 0 {
			return false, true
		}
	case relGE:
		if cl >= 0 {
			return true, true
		}
		if ch < 0 || (ch == 0 && hiS) {
			return false, true
		}
	case relGT:
		if cl > 0 || (cl == 0 && loS) {
			return true, true
		}
		if ch <= 0 {
			return false, true
		}
	case relEQ:
		if cl == 0 && ch == 0 {
			return true, true
		}
		if cl > 0 || ch < 0 || (cl == 0 && loS) || (ch == 0 && hiS) {
			return false, true
		}
	case relNE:
		if cl == 0 && ch == 0 {
			return false, true
		}
		if cl > 0 || ch < 0 || (cl == 0 && loS) || (ch == 0 && hiS) {
			return true, true
		}
	}
	return false, false
}

func (f *Form) not() *Form {
	switch f.op {
	case opAnd:
		return &Form{op: opOr, a: f.a.not(), b: f.b.not()}
	case opOr:
		return &Form{op: opAnd, a: f.a.not(), b: f.b.not()}
	}
	n := &Form{sig: f.sig, key: f.key, c: f.c}
	isInt := f.sig.allInt()
	switch f.op {
	case relLE:
		if isInt {
			n.op, n.c = relGE, new(big.Rat).Add(f.c, ratOne)
		} else {
			n.op = relGT
		}
	case relGE:
		if isInt {
			n.op, n.c = relLE, new(big.Rat).Sub(f.c, ratOne)
		} else {
			n.op = relLT
		}
	case relLT:
		n.op = relGE
	case relGT:
		n.op = relLE
	case relEQ:
		n.op = relNE
	case relNE:
		n.op = relEQ
	}
	return n
}

func notV(v value) value {
	switch x := v.(type) {
	case bool:
		return !x
	case *Form:
		return x.not()
	}
	panic("notV")
}

func andV(a, b value) value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if x, ok := b.(bool); ok {
		if !x {
			return false
		}
		return a
	}
	return &Form{op: opAnd, a: a.(*Form), b: b.(*Form)}
}

func orV(a, b value) value { return notV(andV(notV(a), notV(b))) }

// ---------------------------------------------------------------- SMT text

func smtNum(sb *strings.Builder, r *big.Rat, real bool) {
	n, d := r.Num(), r.Denom()
	neg := n.Sign() < 0
	if neg {
		sb.WriteString("(- ")
	}
	abs := new(big.Int).Abs(n)
	suffix := ""
	if real {
		suffix = ".0"
	}
	if d.IsInt64() && d.Int64() == 1 {
		sb.WriteString(abs.String())
		sb.WriteString(suffix)
	} else {
		sb.WriteString("(/ " + abs.String() + ".0 " + d.String() + ".0)")
	}
	if neg {
		sb.WriteString(")")
	}
}

func smtLin(sb *strings.Builder, l *Lin, real bool) {
	n := len(l.ts)
	if l.c.Sign() != 0 || n == 0 {
		n++
	}
	if n > 1 {
		sb.WriteString("(+")
	}
	for _, t := range l.ts {
		if n > 1 {
			sb.WriteByte(' ')
		}
		one := t.k.Cmp(ratOne) == 0
		if !one {
			sb.WriteString("(* ")
			smtNum(sb, t.k, real)
			sb.WriteByte(' ')
		}
		if real && t.v.isInt {
			sb.WriteString("(to_real v" + strconv.Itoa(t.v.id) + ")")
		} else {
			sb.WriteString("v" + strconv.Itoa(t.v.id))
		}
		if !one {
			sb.WriteString(")")
		}
	}
	if l.c.Sign() != 0 || len(l.ts) == 0 {
		if n > 1 {
			sb.WriteByte(' ')
		}
		smtNum(sb, l.c, real)
	}
	if n > 1 {
		sb.WriteString(")")
	}
}

func (f *Form) smt(sb *strings.Builder) {
	switch f.op {
	case opAnd, opOr:
		if f.op == opAnd {
			sb.WriteString("(and ")
		} else {
			sb.WriteString("(or ")
		}
		f.a.smt(sb)
		sb.WriteByte(' ')
		f.b.smt(sb)
		sb.WriteByte(')')
		return
	}
	real := !f.sig.allInt() || !f.c.IsInt()
	switch f.op {
	case relLE:
		sb.WriteString("(<= ")
	case relLT:
		sb.WriteString("(< ")
	case relGE:
		sb.WriteString("(>= ")
	case relGT:
		sb.WriteString("(> ")
	case relEQ:
		sb.WriteString("(= ")
	case relNE:
		sb.WriteString("(not (= ")
	}
	smtLin(sb, f.sig, real)
	sb.WriteByte(' ')
	smtNum(sb, f.c, real)
	sb.WriteByte(')')
	if f.op == relNE {
		sb.WriteByte(')')
	}
}

// ---------------------------------------------------------------- evaluation in a model

type Model map[int]*big.Rat

func evalLin(l *Lin, m Model) (*big.Rat, bool) {
	r := new(big.Rat).Set(l.c)
	var t big.Rat
	for _, x := range l.ts {
		v, ok := m[x.v.id]
		if !ok {
			if x.v.def {
				if x.v.ev == nil {
					return nil, false
				}
				v = x.v.ev(m)
				if v == nil {
					return nil, false
				}
			} else {
				v = x.v.lo
			}
			m[x.v.id] = v
		}
		r.Add(r, t.Mul(x.k, v))
	}
	return r, true
}

func evalForm(f *Form, m Model) (bool, bool) {
	switch f.op {
	case opAnd, opOr:
		a, ok := evalForm(f.a, m)
		if !ok {
			return false, false
		}
		b, ok := evalForm(f.b, m)
		if !ok {
			return false, false
		}
		if f.op == opAnd {
			return a && b, true
		}
		return a || b, true
	}
	v, ok := evalLin(f.sig, m)
	if !ok {
		return false, false
	}
	s := v.Cmp(f.c)
	switch f.op {
	case relLE:
		return s <= 0, true
	case relLT:
		return s < 0, true
	case relGE:
		return s >= 0, true
	case relGT:
		return s > 0, true
	case relEQ:
		return s == 0, true
	default:
		return s != 0, true
	}
}

func formVars(f *Form, set map[int]*Var) {
	if f.op == opAnd || f.op == opOr {
		formVars(f.a, set)
		formVars(f.b, set)
		return
	}
	for _, t := range f.sig.ts {
		set[t.v.id] = t.v
	}
}

// ---------------------------------------------------------------- float helpers

func ratOfFloat(f float64) *big.Rat {
	r := new(big.Rat)
	if r.SetFloat64(f) == nil {
		return nil
	}
	return r
}

func floatOfRat(r *big.Rat) float64 {
	f, _ := r.Float64()
	return f
}

func isFinite(f float64) bool { return !math.IsInf(f, 0) && !math.IsNaN(f) }

func sortedIDs(m map[int]*Var) []int {
	ids := make([]int, 0, len(m))
	for id := range m {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	return ids
}
