package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// kind describes a basic type for arithmetic.
type kind struct {
	isInt, isFloat, isStr, isBool bool
	bits                          int
	signed                        bool
}

func kindOf(t types.Type) kind {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return kind{}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return kind{isBool: true}
	case types.String, types.UntypedString:
		return kind{isStr: true}
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return kind{isInt: true, bits: 64, signed: true}
	case types.Int32:
		return kind{isInt: true, bits: 32, signed: true}
	case types.Int16:
		return kind{isInt: true, bits: 16, signed: true}
	case types.Int8:
		return kind{isInt: true, bits: 8, signed: true}
	case types.Uint, types.Uint64, types.Uintptr:
		return kind{isInt: true, bits: 64}
	case types.Uint32:
		return kind{isInt: true, bits: 32}
	case types.Uint16:
		return kind{isInt: true, bits: 16}
	case types.Uint8:
		return kind{isInt: true, bits: 8}
	case types.Float64, types.UntypedFloat:
		return kind{isFloat: true, bits: 64}
	case types.Float32:
		return kind{isFloat: true, bits: 32}
	}
	return kind{}
}

func (k kind) trunc(v int64) int64 {
	switch {
	case k.bits == 64:
		return v
	case k.signed:
		switch k.bits {
		case 32:
			return int64(int32(v))
		case 16:
			return int64(int16(v))
		}
		return int64(int8(v))
	}
	return v & (1<<uint(k.bits) - 1)
}

func (k kind) truncC(v int64) value { return k.trunc(v) }

func (k kind) rng() (*big.Rat, *big.Rat) {
	if k.signed {
		m := pow2(k.bits - 1)
		return new(big.Rat).Neg(m), new(big.Rat).Sub(m, ratOne)
	}
	return ratZero, new(big.Rat).Sub(pow2(k.bits), ratOne)
}

// intLin gives the mathematical value of an integer.
func intLin(v value, k kind) *Lin {
	switch x := v.(type) {
	case int64:
		if !k.signed && k.bits == 64 && x < 0 {
			return linConst(new(big.Rat).SetInt(new(big.Int).SetUint64(uint64(x))))
		}
		return linConst(ratInt(x))
	case *Lin:
		return x
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("integer operand %T", v)})
}

func fltLin(v value) *Lin {
	switch x := v.(type) {
	case float64:
		return linConst(ratOfFloat(x))
	case *Lin:
		return x
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("float operand %T", v)})
}

func ratToInt64(r *big.Rat) int64 {
	n := r.Num()
	if n.IsInt64() {
		return n.Int64()
	}
	return int64(n.Uint64())
}

// normInt wraps l into the range of k.
func (in *Interp) normInt(l *Lin, k kind) value {
	mn, mx := k.rng()
	if l.isConst() {
		if l.c.Cmp(mn) >= 0 && l.c.Cmp(mx) <= 0 {
			return ratToInt64(l.c)
		}
		n := new(big.Int).Set(l.c.Num())
		n.And(n, new(big.Int).SetUint64(math.MaxUint64))
		return k.trunc(int64(n.Uint64()))
	}
	lo, hi := l.bounds()
	if lo.Cmp(mn) >= 0 && hi.Cmp(mx) <= 0 {
		return l
	}
	// in range on this path?
	inR := andV(mkCmp(linSub(l, linConst(mn)), relGE), mkCmp(linSub(l, linConst(mx)), relLE))
	if b, ok := in.p.decide(inR); ok && b {
		// keep, with a fresh name carrying the bounds
		return in.nameInt(l, mn, mx)
	}
	m := pow2(k.bits)
	q := in.p.newVar("", true, ratFloor(new(big.Rat).Quo(new(big.Rat).Sub(lo, mn), m)), ratFloor(new(big.Rat).Quo(new(big.Rat).Sub(hi, mn), m)))
	q.def = true
	q.ev = func(md Model) *big.Rat {
		v, ok := evalLin(l, md)
		if !ok {
			return nil
		}
		return ratFloor(new(big.Rat).Quo(new(big.Rat).Sub(v, mn), m))
	}
	r := linSub(l, linScale(linVar(q), m))
	in.p.constrainDef(andV(mkCmp(linSub(r, linConst(mn)), relGE), mkCmp(linSub(r, linConst(mx)), relLE)))
	return in.nameInt(r, mn, mx)
}

// nameInt introduces a variable equal to l with tighter bounds.
func (in *Interp) nameInt(l *Lin, mn, mx *big.Rat) value {
	key := "n" + l.String()
	if r, ok := in.p.roundM[key]; ok {
		return r
	}
	v := in.p.newVar("", true, mn, mx)
	v.def = true
	v.ev = func(md Model) *big.Rat {
		x, ok := evalLin(l, md)
		if !ok {
			return nil
		}
		return x
	}
	in.p.constrainDef(mkCmp(linSub(l, linVar(v)), relEQ))
	r := linVar(v)
	in.p.roundM[key] = r
	return r
}

func simp(l *Lin, isF bool) value {
	if l.isConst() {
		if isF {
			return floatOfRat(l.c)
		}
		return ratToInt64(l.c)
	}
	return l
}

var u53 = pow2(-53)
var u24 = pow2(-24)

// roundF rounds the exact value l to the nearest float of the given width.
func (in *Interp) roundF(l *Lin, bits int) value {
	mant := 53
	if bits == 32 {
		mant = 24
	}
	if l.isConst() {
		if bits == 32 {
			f, _ := l.c.Float32()
			return float64(f)
		}
		return floatOfRat(l.c)
	}
	if l.exactFloat(mant) {
		return l
	}
	key := strconv.Itoa(bits) + l.String()
	if r, ok := in.p.roundM[key]; ok {
		return r
	}
	u := u53
	if bits == 32 {
		u = u24
	}
	lo, hi := l.bounds()
	rnd := func(r *big.Rat) *big.Rat {
		var f float64
		if bits == 32 {
			x, _ := r.Float32()
			f = float64(x)
		} else {
			f = floatOfRat(r)
		}
		if !isFinite(f) {
			panic(pathEnd{"unsupported", "float overflow"})
		}
		return ratOfFloat(f)
	}
	v := in.p.newVar("", false, rnd(lo), rnd(hi))
	v.def = true
	v.ev = func(md Model) *big.Rat {
		x, ok := evalLin(l, md)
		if !ok {
			return nil
		}
		return rnd(x)
	}
	v.of, v.mant = l, mant
	r := linVar(v)
	up := new(big.Rat).Add(ratOne, u)
	dn := new(big.Rat).Sub(ratOne, u)
	switch {
	case lo.Sign() >= 0:
		in.p.constrainDef(mkCmp(linSub(r, linScale(l, dn)), relGE))
		in.p.constrainDef(mkCmp(linSub(r, linScale(l, up)), relLE))
	case hi.Sign() <= 0:
		in.p.constrainDef(mkCmp(linSub(r, linScale(l, dn)), relLE))
		in.p.constrainDef(mkCmp(linSub(r, linScale(l, up)), relGE))
	default:
		e := new(big.Rat).Mul(l.maxAbs(), u)
		in.p.constrainDef(mkCmp(linSub(linSub(r, l), linConst(e)), relLE))
		in.p.constrainDef(mkCmp(linAdd(linSub(r, l), linConst(e)), relGE))
	}
	in.p.roundM[key] = r
	return r
}

// monotone tells the solver, before the sign of d decides something, that rounding is monotone: a rounded value is on
// the same side of a float as the value itself.
func (in *Interp) monotone(d *Lin) {
	if in.hn == nil || !in.hn.Monotone {
		return
	}
	for i, t := range d.ts {
		if t.v.of == nil {
			continue
		}
		// d = k*(r - x)
		rest := linSub(d, linScale(linVar(t.v), t.k))
		x := linScale(rest, new(big.Rat).Neg(new(big.Rat).Inv(t.k)))
		l := t.v.of
		var lx *Lin
		switch {
		case x.isConst():
			f, _ := x.c.Float64()
			if t.v.mant == 24 {
				g, _ := x.c.Float32()
				f = float64(g)
			}
			if !isFinite(f) || ratOfFloat(f).Cmp(x.c) != 0 {
				continue
			}
			lx = linSub(l, x)
		case len(x.ts) == 1 && x.ts[0].v.of != nil && x.ts[0].v.mant == t.v.mant && x.ts[0].k.Cmp(ratOne) == 0 && x.c.Sign() == 0:
			if i > 0 {
				continue
			}
			lx = linSub(l, x.ts[0].v.of) // two rounded values
		case x.exactFloat(t.v.mant):
			lx = linSub(l, x)
		case t.v.lo.Sign() < 0 && t.v.hi.Sign() > 0:
			x, lx = linConst(ratZero), l // at least the sign is kept
		default:
			continue
		}
		key := "mono" + strconv.Itoa(t.v.id) + "|" + x.String()
		if _, done := in.p.roundM[key]; done {
			continue
		}
		in.p.roundM[key] = d
		in.monotone(lx)
		rx := linSub(linVar(t.v), x)
		in.p.lemma(orV(mkCmp(lx, relGT), mkCmp(rx, relLE)))
		in.p.lemma(orV(mkCmp(lx, relLT), mkCmp(rx, relGE)))
	}
}

// nonlinear introduces v = expr, known through an SMT definition and a native evaluator.
func (in *Interp) nonlinear(isInt bool, lo, hi *big.Rat, key string, ev func(Model) *big.Rat, raw func(v string) string) *Lin {
	if r, ok := in.p.roundM[key]; ok {
		return r
	}
	v := in.p.newVar("", isInt, lo, hi)
	in.p.define(v, ev, raw("v"+strconv.Itoa(v.id)))
	r := linVar(v)
	in.p.roundM[key] = r
	return r
}

func (in *Interp) mulLin(a, b *Lin) *Lin {
	if a.isConst() {
		return linScale(b, a.c)
	}
	if b.isConst() {
		return linScale(a, b.c)
	}
	al, ah := a.bounds()
	bl, bh := b.bounds()
	var lo, hi *big.Rat
	for _, x := range []*big.Rat{al, ah} {
		for _, y := range []*big.Rat{bl, bh} {
			m := new(big.Rat).Mul(x, y)
			if lo == nil || m.Cmp(lo) < 0 {
				lo = m
			}
			if hi == nil || m.Cmp(hi) > 0 {
				hi = m
			}
		}
	}
	isInt := a.allInt() && b.allInt() && a.gran() == 0 && b.gran() == 0
	sa, sb := smtOf(a, !isInt), smtOf(b, !isInt)
	if sb < sa {
		sa, sb = sb, sa
	}
	if sa == sb && lo.Sign() < 0 {
		lo = ratZero
	}
	return in.nonlinear(isInt, lo, hi, "*"+sa+"|"+sb, func(m Model) *big.Rat {
		x, ok := evalLin(a, m)
		if !ok {
			return nil
		}
		y, ok := evalLin(b, m)
		if !ok {
			return nil
		}
		return new(big.Rat).Mul(x, y)
	}, func(v string) string { return "(= " + v + " (* " + sa + " " + sb + "))" })
}

// floorDiv gives floor(l / k) for a positive constant k.
func (in *Interp) floorDiv(l *Lin, k *big.Rat) *Lin {
	if l.isConst() {
		return linConst(ratFloor(new(big.Rat).Quo(l.c, k)))
	}
	s := linScale(l, new(big.Rat).Inv(k))
	if s.gran() == 0 && s.allInt() {
		return s
	}
	key := "/" + k.RatString() + "|" + l.String()
	if r, ok := in.p.roundM[key]; ok {
		return r
	}
	lo, hi := s.bounds()
	v := in.p.newVar("", true, ratFloor(lo), ratFloor(hi))
	v.def = true
	v.ev = func(m Model) *big.Rat {
		x, ok := evalLin(s, m)
		if !ok {
			return nil
		}
		return ratFloor(x)
	}
	d := linSub(l, linScale(linVar(v), k)) // 0 <= d < k
	in.p.constrainDef(mkCmp(d, relGE))
	in.p.constrainDef(mkCmp(linSub(d, linConst(k)), relLT))
	r := linVar(v)
	in.p.roundM[key] = r
	return r
}

func (in *Interp) equalOp(a, b value) value {
	return in.equal(a, b)
}

func cmpRel(op token.Token) int {
	switch op {
	case token.LSS:
		return relLT
	case token.LEQ:
		return relLE
	case token.GTR:
		return relGT
	}
	return relGE
}

func (in *Interp) neg(v value, k kind) value {
	switch x := v.(type) {
	case int64:
		return k.trunc(-x)
	case float64:
		return -x
	case *Lin:
		n := linScale(x, ratMinusOne)
		if k.isInt {
			return in.normInt(n, k)
		}
		return n
	}
	panic(pathEnd{"unsupported", "negation"})
}

func (in *Interp) binop(op token.Token, a, b value, k, k2 kind) value {
	switch {
	case k.isInt:
		x, ok1 := a.(int64)
		y, ok2 := b.(int64)
		if ok1 && ok2 {
			return in.intOp(op, x, y, k, k2)
		}
		return in.intSym(op, a, b, k, k2)
	case k.isFloat:
		x, ok1 := a.(float64)
		y, ok2 := b.(float64)
		if ok1 && ok2 {
			return floatOp(op, x, y, k)
		}
		return in.floatSym(op, a, b, k)
	case k.isStr:
		x, ok1 := a.(string)
		y, ok2 := b.(string)
		if ok1 && ok2 {
			switch op {
			case token.ADD:
				return x + y
			case token.LSS:
				return x < y
			case token.LEQ:
				return x <= y
			case token.GTR:
				return x > y
			case token.GEQ:
				return x >= y
			}
		}
		if op == token.ADD {
			return concatStr(a, b)
		}
		return in.strCmp(op, a, b)
	case k.isBool:
		if op == token.AND || op == token.LAND {
			return andV(a, b)
		}
		if op == token.OR || op == token.LOR {
			return orV(a, b)
		}
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("operator %s on %T", op, a)})
}

func (in *Interp) intOp(op token.Token, x, y int64, k, k2 kind) value {
	if k.signed {
		switch op {
		case token.ADD:
			return k.trunc(x + y)
		case token.SUB:
			return k.trunc(x - y)
		case token.MUL:
			return k.trunc(x * y)
		case token.QUO:
			if y == 0 {
				in.goPanic("runtime error: integer divide by zero")
			}
			if y == -1 {
				return k.trunc(-x)
			}
			return k.trunc(x / y)
		case token.REM:
			if y == 0 {
				in.goPanic("runtime error: integer divide by zero")
			}
			if y == -1 {
				return int64(0)
			}
			return k.trunc(x % y)
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	} else {
		ux, uy := uint64(x), uint64(y)
		switch op {
		case token.ADD:
			return k.trunc(x + y)
		case token.SUB:
			return k.trunc(x - y)
		case token.MUL:
			return k.trunc(x * y)
		case token.QUO:
			if y == 0 {
				in.goPanic("runtime error: integer divide by zero")
			}
			return int64(ux / uy)
		case token.REM:
			if y == 0 {
				in.goPanic("runtime error: integer divide by zero")
			}
			return int64(ux % uy)
		case token.LSS:
			return ux < uy
		case token.LEQ:
			return ux <= uy
		case token.GTR:
			return ux > uy
		case token.GEQ:
			return ux >= uy
		}
	}
	switch op {
	case token.AND:
		return x & y
	case token.OR:
		return x | y
	case token.XOR:
		return k.trunc(x ^ y)
	case token.AND_NOT:
		return x &^ y
	case token.SHL:
		if k2.signed && y < 0 {
			in.goPanic("runtime error: negative shift amount")
		}
		if uint64(y) >= 64 {
			return int64(0)
		}
		return k.trunc(x << uint64(y))
	case token.SHR:
		if k2.signed && y < 0 {
			in.goPanic("runtime error: negative shift amount")
		}
		if k.signed {
			if uint64(y) >= 64 {
				y = 63
			}
			return x >> uint64(y)
		}
		if uint64(y) >= 64 {
			return int64(0)
		}
		return int64(uint64(x) >> uint64(y))
	}
	panic(pathEnd{"unsupported", "int op " + op.String()})
}

func (in *Interp) intSym(op token.Token, a, b value, k, k2 kind) value {
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return mkCmp(linSub(intLin(a, k), intLin(b, k)), cmpRel(op))
	case token.ADD:
		return in.normInt(linAdd(intLin(a, k), intLin(b, k)), k)
	case token.SUB:
		return in.normInt(linSub(intLin(a, k), intLin(b, k)), k)
	case token.MUL:
		return in.normInt(in.mulLin(intLin(a, k), intLin(b, k)), k)
	case token.QUO, token.REM:
		la := intLin(a, k)
		lb := intLin(b, k)
		if !lb.isConst() {
			if in.p.branch(mkCmp(lb, relEQ)) {
				in.goPanic("runtime error: integer divide by zero")
			}
			lb = linConst(in.p.concretize(lb))
		}
		if lb.c.Sign() == 0 {
			in.goPanic("runtime error: integer divide by zero")
		}
		if la.isConst() {
			return in.intOp(op, ratToInt64(la.c), ratToInt64(lb.c), k, k2)
		}
		d := new(big.Rat).Abs(lb.c)
		// truncated division
		s := linScale(la, new(big.Rat).Inv(d))
		var q *Lin
		if s.gran() == 0 && s.allInt() {
			q = s
		} else if lo, hi := la.bounds(); lo.Sign() >= 0 {
			q = in.floorDiv(la, d)
		} else if hi.Sign() <= 0 || !in.p.branch(mkCmp(la, relGE)) {
			q = linScale(in.floorDiv(linScale(la, ratMinusOne), d), ratMinusOne)
		} else {
			q = in.floorDiv(la, d)
		}
		if lb.c.Sign() < 0 {
			q = linScale(q, ratMinusOne)
		}
		if op == token.QUO {
			return in.normInt(q, k)
		}
		return in.normInt(linSub(la, linScale(q, lb.c)), k)
	case token.SHL, token.SHR:
		y := in.concInt(b)
		if k2.signed && y < 0 {
			in.goPanic("runtime error: negative shift amount")
		}
		if x, ok := a.(int64); ok {
			return in.intOp(op, x, y, k, k2)
		}
		if uint64(y) > 63 {
			panic(pathEnd{"unsupported", "wide symbolic shift"})
		}
		if op == token.SHL {
			return in.normInt(linScale(a.(*Lin), pow2(int(y))), k)
		}
		return in.normInt(in.floorDiv(a.(*Lin), pow2(int(y))), k)
	case token.AND:
		// mask 2^n-1 on a non-negative value is a remainder
		l, lok := a.(*Lin)
		c, cok := b.(int64)
		if !lok {
			l, lok = b.(*Lin)
			c, cok = a.(int64)
		}
		if lok && cok && c >= 0 && c&(c+1) == 0 {
			m := ratInt(c)
			m = new(big.Rat).Add(m, ratOne)
			return in.normInt(linSub(l, linScale(in.floorDiv(l, m), m)), k)
		}
	}
	// bitwise operations: concretise
	x := in.concInt(a)
	y := in.concInt(b)
	return in.intOp(op, x, y, k, k2)
}

func floatOp(op token.Token, x, y float64, k kind) value {
	var r float64
	switch op {
	case token.ADD:
		r = x + y
	case token.SUB:
		r = x - y
	case token.MUL:
		r = x * y
	case token.QUO:
		r = x / y
	case token.LSS:
		return x < y
	case token.LEQ:
		return x <= y
	case token.GTR:
		return x > y
	case token.GEQ:
		return x >= y
	default:
		panic(pathEnd{"unsupported", "float op " + op.String()})
	}
	if k.bits == 32 {
		r = float64(float32(r))
	}
	return r
}

// sign decides the sign of l on this path: -1, 0 or 1.
func (in *Interp) sign(l *Lin) int {
	if l.isConst() {
		return l.c.Sign()
	}
	in.monotone(l)
	if in.p.branch(mkCmp(l, relGT)) {
		return 1
	}
	if in.p.branch(mkCmp(l, relEQ)) {
		return 0
	}
	return -1
}

func (in *Interp) floatSym(op token.Token, a, b value, k kind) value {
	if x, ok := a.(float64); ok && !isFinite(x) {
		return in.floatNonFinite(op, x, b.(*Lin), true, k)
	}
	if y, ok := b.(float64); ok && !isFinite(y) {
		return in.floatNonFinite(op, y, a.(*Lin), false, k)
	}
	la, lb := fltLin(a), fltLin(b)
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		d := linSub(la, lb)
		in.monotone(d)
		return mkCmp(d, cmpRel(op))
	case token.ADD:
		return in.roundF(linAdd(la, lb), k.bits)
	case token.SUB:
		return in.roundF(linSub(la, lb), k.bits)
	case token.MUL:
		return in.roundF(in.mulLin(la, lb), k.bits)
	case token.QUO:
		if lb.isConst() {
			if lb.c.Sign() == 0 {
				neg := 1
				if y, ok := b.(float64); ok && math.Signbit(y) {
					neg = -1
				}
				switch in.sign(la) * neg {
				case 1:
					return math.Inf(1)
				case -1:
					return math.Inf(-1)
				}
				return math.NaN()
			}
			return in.roundF(linScale(la, new(big.Rat).Inv(lb.c)), k.bits)
		}
		sb := in.sign(lb)
		if sb == 0 {
			switch in.sign(la) {
			case 1:
				return math.Inf(1)
			case -1:
				return math.Inf(-1)
			}
			return math.NaN()
		}
		return in.roundF(in.divLin(la, lb, sb), k.bits)
	}
	panic(pathEnd{"unsupported", "float op " + op.String()})
}

// divLin gives the exact quotient a/b, b of known nonzero sign.
func (in *Interp) divLin(a, b *Lin, sb int) *Lin {
	if a.isConst() && a.c.Sign() == 0 {
		return a
	}
	// proportional?
	if len(a.ts) == len(b.ts) {
		r := new(big.Rat).Quo(a.ts0k(), b.ts0k())
		if d := linSub(a, linScale(b, r)); d.isConst() && d.c.Sign() == 0 {
			return linConst(r)
		}
	}
	bl, bh := b.bounds()
	// smallest magnitude of b
	var mn *big.Rat
	if ft := in.p.facts; ft != nil {
		_ = ft
	}
	if sb > 0 {
		mn = bl
	} else {
		mn = new(big.Rat).Neg(bh)
	}
	if mn.Sign() <= 0 {
		if b.gran() >= 0 {
			mn = pow2(-b.gran())
		} else {
			mn = pow2(-60)
		}
	}
	m := new(big.Rat).Quo(a.maxAbs(), mn)
	lo := new(big.Rat).Neg(m)
	hi := m
	al, ah := a.bounds()
	if al.Sign() >= 0 {
		if sb > 0 {
			lo = ratZero
		} else {
			hi = ratZero
		}
	} else if ah.Sign() <= 0 {
		if sb > 0 {
			hi = ratZero
		} else {
			lo = ratZero
		}
	}
	sa, sbs := smtOf(a, true), smtOf(b, true)
	return in.nonlinear(false, lo, hi, "//"+sa+"|"+sbs, func(m Model) *big.Rat {
		x, ok := evalLin(a, m)
		if !ok {
			return nil
		}
		y, ok := evalLin(b, m)
		if !ok || y.Sign() == 0 {
			return nil
		}
		return new(big.Rat).Quo(x, y)
	}, func(v string) string { return "(= (* " + v + " " + sbs + ") " + sa + ")" })
}

func (l *Lin) ts0k() *big.Rat {
	if len(l.ts) == 0 {
		return ratOne
	}
	return l.ts[0].k
}

func (in *Interp) floatNonFinite(op token.Token, x float64, l *Lin, first bool, k kind) value {
	if math.IsNaN(x) {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return false
		}
		return math.NaN()
	}
	// infinite
	pos := x > 0
	switch op {
	case token.LSS, token.LEQ:
		if first {
			return !pos
		}
		return pos
	case token.GTR, token.GEQ:
		if first {
			return pos
		}
		return !pos
	case token.ADD:
		return x
	case token.SUB:
		if first {
			return x
		}
		return -x
	case token.MUL:
		s := in.sign(l)
		if s == 0 {
			return math.NaN()
		}
		return x * float64(s)
	case token.QUO:
		if first {
			s := in.sign(l)
			if s == 0 {
				s = 1
			}
			return x * float64(s)
		}
		return float64(0)
	}
	panic(pathEnd{"unsupported", "float op"})
}

func smtOf(l *Lin, real bool) string {
	var sb sbuilder
	if real && l.isConst() {
		smtNum(&sb.Builder, l.c, true)
		return sb.String()
	}
	smtLin(&sb.Builder, l, real)
	return sb.String()
}

// ---------------------------------------------------------------- conversions

func (in *Interp) convert(v value, from, to types.Type) value {
	uf, ut := from.Underlying(), to.Underlying()
	if bf, ok := uf.(*types.Basic); ok && bf.Kind() == types.UnsafePointer {
		return v
	}
	if bt, ok := ut.(*types.Basic); ok {
		if bt.Kind() == types.UnsafePointer {
			return v
		}
		kt := kindOf(to)
		switch {
		case kt.isStr:
			switch f := uf.(type) {
			case *types.Slice:
				eb := f.Elem().Underlying().(*types.Basic)
				s := v.([]value)
				if eb.Kind() == types.Uint8 {
					return mkStr(s)
				}
				var r value = ""
				for _, e := range s {
					r = concatStr(r, in.runeStr(e))
				}
				return r
			case *types.Basic:
				if f.Info()&types.IsInteger != 0 {
					return in.runeStr(v)
				}
				return v
			}
		case kt.isInt:
			kf := kindOf(from)
			if kf.isInt {
				if x, ok := v.(int64); ok {
					return kt.trunc(x)
				}
				return in.normInt(v.(*Lin), kt)
			}
			if kf.isFloat {
				if x, ok := v.(float64); ok {
					if kt.signed {
						switch kt.bits {
						case 64:
							return int64(x)
						case 32:
							return int64(int32(x))
						}
						return kt.trunc(int64(x))
					}
					if kt.bits == 64 {
						return int64(uint64(x))
					}
					return kt.trunc(int64(x))
				}
				l := v.(*Lin)
				if l.gran() == 0 && l.allInt() {
					return in.normInt(l, kt)
				}
				lo, hi := l.bounds()
				var q *Lin
				if lo.Sign() >= 0 || (hi.Sign() > 0 && in.p.branch(mkCmp(l, relGE))) {
					q = in.floorDiv(l, ratOne)
				} else {
					q = linScale(in.floorDiv(linScale(l, ratMinusOne), ratOne), ratMinusOne)
				}
				return in.normInt(q, kt)
			}
		case kt.isFloat:
			kf := kindOf(from)
			if kf.isInt {
				if x, ok := v.(int64); ok {
					var f float64
					if !kf.signed && kf.bits == 64 {
						f = float64(uint64(x))
					} else {
						f = float64(x)
					}
					if kt.bits == 32 {
						if !kf.signed && kf.bits == 64 {
							return float64(float32(uint64(x)))
						}
						return float64(float32(x))
					}
					return f
				}
				return in.roundF(v.(*Lin), kt.bits)
			}
			if kf.isFloat {
				if x, ok := v.(float64); ok {
					if kt.bits == 32 {
						return float64(float32(x))
					}
					return x
				}
				if kt.bits == 32 && kf.bits == 64 {
					return in.roundF(v.(*Lin), 32)
				}
				return v
			}
		}
	}
	if st, ok := ut.(*types.Slice); ok {
		if kindOf(from).isStr {
			eb := st.Elem().Underlying().(*types.Basic)
			switch s := v.(type) {
			case string:
				if eb.Kind() == types.Uint8 {
					r := make([]value, len(s))
					for i := 0; i < len(s); i++ {
						r[i] = int64(s[i])
					}
					return r
				}
				var r []value
				for _, c := range s {
					r = append(r, int64(c))
				}
				return r
			case *SStr:
				r := make([]value, len(s.els))
				copy(r, s.els)
				return r
			}
		}
	}
	if _, ok := ut.(*types.Pointer); ok {
		return v
	}
	if types.Identical(uf, ut) {
		return v
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("conversion %s to %s", from, to)})
}

func (in *Interp) runeStr(v value) value {
	switch x := v.(type) {
	case int64:
		return string(rune(x))
	case *Lin:
		if in.p.branch(andV(mkCmp(x, relGE), mkCmp(linSub(x, linConst(ratInt(128))), relLT))) {
			return &SStr{els: []value{x}}
		}
		return string(rune(in.concInt(x)))
	case *Tok:
		return &SStr{els: []value{x}}
	}
	panic(pathEnd{"unsupported", "rune"})
}

// ---------------------------------------------------------------- builtins

func (in *Interp) builtin(fr *frame, b *ssa.Builtin, ts []types.Type, args []value, cc *ssa.CallCommon) value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string:
			return int64(len(x))
		case *SStr:
			in.needBytes(x)
			return int64(len(x.els))
		case []value:
			return int64(len(x))
		case arrayV:
			return int64(len(x))
		case *value:
			return int64(len((*x).(arrayV)))
		case *mapV:
			if x == nil {
				return int64(0)
			}
			return int64(x.n)
		case *chanV:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return int64(cap(x))
		case arrayV:
			return int64(len(x))
		case *value:
			return int64(len((*x).(arrayV)))
		case *chanV:
			return int64(x.cap)
		}
	case "append":
		s := args[0].([]value)
		if len(args) == 1 {
			return s
		}
		var add []value
		switch y := args[1].(type) {
		case []value:
			add = y
		case string:
			add = strEls(y)
		case *SStr:
			add = y.els
		}
		var et types.Type
		if ts != nil {
			et = ts[0].Underlying().(*types.Slice).Elem()
		}
		return appendVals(s, add, et)
	case "copy":
		d := args[0].([]value)
		var src []value
		switch y := args[1].(type) {
		case []value:
			src = y
		case string:
			src = strEls(y)
		case *SStr:
			src = y.els
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			storeVal(&d[i], tmp[i])
		}
		return int64(n)
	case "delete":
		in.mapDeleteB(args[0], args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *mapV:
			if x != nil {
				for _, e := range x.ents {
					e.deleted = true
				}
				x.ents = nil
				x.idx = map[interface{}]*mapEntry{}
				x.n, x.nsym = 0, 0
			}
		case []value:
			et := ts[0].Underlying().(*types.Slice).Elem()
			for i := range x {
				storeVal(&x[i], zero(et))
			}
		}
		return nil
	case "close":
		in.chanClose(fr, args[0].(*chanV))
		return nil
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		if fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			p := fr.caller.panicVal.(targetPanic)
			fr.caller.panicVal = nil
			return p.v
		}
		return iface{}
	case "min", "max":
		k := kindOf(ts[0])
		r := args[0]
		for _, y := range args[1:] {
			var lt value
			if k.isFloat {
				if fx, ok := r.(float64); ok {
					if fy, ok := y.(float64); ok {
						if b.Name() == "min" {
							r = math.Min(fx, fy)
						} else {
							r = math.Max(fx, fy)
						}
						continue
					}
				}
			}
			if b.Name() == "min" {
				lt = in.binop(token.LSS, y, r, k, k)
			} else {
				lt = in.binop(token.GTR, y, r, k, k)
			}
			if in.p.branch(lt) {
				r = y
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			in.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "String": // unsafe.String
		p := args[0].(*value)
		n := int(in.concInt(args[1]))
		if n == 0 {
			return ""
		}
		_ = p
	}
	panic(pathEnd{"unsupported", "builtin " + b.Name()})
}

func (in *Interp) mapDeleteB(m, k value) {
	mv := m.(*mapV)
	if mv == nil {
		return
	}
	in.checkHashable(k)
	in.mapDelete(mv, k)
}

// appendVals appends like the Go runtime, including its capacity growth.
func appendVals(s, add []value, et types.Type) []value {
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		tmp := make([]value, len(add))
		for i := range add {
			tmp[i] = copyVal(add[i])
		}
		copy(r[len(s):], tmp)
		return r
	}
	c := growCap(cap(s), n, et)
	r := make([]value, n, c)
	copy(r, s)
	for i := range add {
		r[len(s)+i] = copyVal(add[i])
	}
	return r
}

var stdSizes = types.SizesFor("gc", "amd64")

func growCap(old, need int, et types.Type) int {
	nc := old
	dbl := 2 * old
	switch {
	case need > dbl:
		nc = need
	case old < 256:
		nc = dbl
	default:
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if et == nil {
		return nc
	}
	es := int(stdSizes.Sizeof(et))
	if es == 0 {
		return need
	}
	if es*nc > 1<<20 {
		return nc
	}
	mem := es * nc
	hdr := 0
	if mem > 512 && hasPointers(et) && mem <= 32768-8 {
		hdr = 8
	}
	cls := cap(append([]byte(nil), make([]byte, mem+hdr)...)) - hdr
	if c := cls / es; c >= nc {
		return c
	}
	return nc
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Array:
		return hasPointers(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}
