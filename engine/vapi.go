package main

import (
	"fmt"
	"math/big"
	"strconv"
)

// The harness vocabulary: intercepted by name in the harness package; api.go.txt holds the native version.

type conf map[string]interface{}

func (h *Harness) confInt(name string) (int64, bool) {
	v, ok := h.Conf[name]
	if !ok {
		return 0, false
	}
	switch x := v.(type) {
	case float64:
		return int64(x), true
	case int:
		return int64(x), true
	case int64:
		return x, true
	}
	return 0, false
}

var vapiTable = map[string]stubFn{
	"vInt": func(in *Interp, fr *frame, a []value) value {
		lo, hi := in.concInt(a[1]), in.concInt(a[2])
		v := in.newInput(in.concStr(a[0]), true, ratInt(lo), ratInt(hi))
		if lo == hi {
			return lo
		}
		return linVar(v)
	},
	"vFloat": func(in *Interp, fr *frame, a []value) value {
		g := int(in.concInt(a[3]))
		sc := pow2(g)
		lo := ratCeil(new(big.Rat).Mul(ratOfFloat(a[1].(float64)), sc))
		hi := ratFloor(new(big.Rat).Mul(ratOfFloat(a[2].(float64)), sc))
		v := in.newInput(in.concStr(a[0]), true, lo, hi)
		if lo.Cmp(hi) == 0 {
			return floatOfRat(new(big.Rat).Quo(lo, sc))
		}
		return linScale(linVar(v), new(big.Rat).Inv(sc))
	},
	"vBool": func(in *Interp, fr *frame, a []value) value {
		v := in.newInput(in.concStr(a[0]), true, ratZero, ratOne)
		return mkCmp(linSub(linVar(v), linConst(ratOne)), relEQ)
	},
	"vChoice": func(in *Interp, fr *frame, a []value) value {
		k := in.p.choose(int(in.concInt(a[1])))
		in.p.choices = append(in.p.choices, choiceRec{in.concStr(a[0]), k})
		return int64(k)
	},
	"vConc": func(in *Interp, fr *frame, a []value) value { return in.concInt(a[0]) },
	"vAssume": func(in *Interp, fr *frame, a []value) value {
		in.p.assume(a[0])
		return nil
	},
	"vAssert": func(in *Interp, fr *frame, a []value) value {
		in.p.check(a[0], in.concStr(a[1]))
		return nil
	},
	"vObserve": func(in *Interp, fr *frame, a []value) value {
		i := a[1].(iface)
		in.p.obs = append(in.p.obs, obsRec{in.concStr(a[0]), i.v})
		return nil
	},
	"vCover": func(in *Interp, fr *frame, a []value) value {
		in.p.covers[in.concStr(a[0])] = true
		return nil
	},
	"vConf": func(in *Interp, fr *frame, a []value) value {
		v, ok := in.hn.confInt(in.concStr(a[0]))
		if !ok {
			panic(pathEnd{"unsupported", "missing configuration " + in.concStr(a[0])})
		}
		return v
	},
	"vConfS": func(in *Interp, fr *frame, a []value) value {
		s, _ := in.hn.Conf[in.concStr(a[0])].(string)
		return s
	},
	"vTmpDir": func(in *Interp, fr *frame, a []value) value {
		in.fs.nodes["/tmp/scratch"] = &inode{dir: true}
		in.fs.cwd = "/tmp/scratch"
		return "/tmp/scratch"
	},
	// vSettle lets every other goroutine run until it blocks.
	"vSettle": func(in *Interp, fr *frame, a []value) value {
		for len(in.sched.runnable) > 0 {
			in.sched.ready(fr.g)
			g := in.sched.pick()
			if g == fr.g {
				continue
			}
			in.sched.switchTo(fr.g, g)
		}
		return nil
	},
	// vRandRewind: generators made from now on draw the same sequence again.
	"vRandRewind": func(in *Interp, fr *frame, a []value) value {
		in.p.drawn = 0
		return nil
	},
	"vSymbolic": func(in *Interp, fr *frame, a []value) value { return true },
	"vAnd":      func(in *Interp, fr *frame, a []value) value { return andV(a[0], a[1]) },
	"vOr":       func(in *Interp, fr *frame, a []value) value { return orV(a[0], a[1]) },
	"vImp":      func(in *Interp, fr *frame, a []value) value { return orV(notV(a[0]), a[1]) },
	// vIte chooses without splitting the path.
	"vIteI": func(in *Interp, fr *frame, a []value) value {
		if b, ok := in.p.decide(a[0]); ok {
			if b {
				return a[1]
			}
			return a[2]
		}
		k := kind{isInt: true, bits: 64, signed: true}
		x, y := intLin(a[1], k), intLin(a[2], k)
		xl, xh := x.bounds()
		yl, yh := y.bounds()
		lo, hi := xl, xh
		if yl.Cmp(lo) < 0 {
			lo = yl
		}
		if yh.Cmp(hi) > 0 {
			hi = yh
		}
		f := a[0].(*Form)
		v := in.p.newVar("", true, lo, hi)
		v.def = true
		v.ev = func(m Model) *big.Rat {
			b, ok := evalForm(f, m)
			if !ok {
				return nil
			}
			l := y
			if b {
				l = x
			}
			r, ok := evalLin(l, m)
			if !ok {
				return nil
			}
			return r
		}
		in.p.constrainDef(orV(notV(f), mkCmp(linSub(linVar(v), x), relEQ)))
		in.p.constrainDef(orV(f, mkCmp(linSub(linVar(v), y), relEQ)))
		return linVar(v)
	},
	"vIteF": func(in *Interp, fr *frame, a []value) value {
		if b, ok := in.p.decide(a[0]); ok {
			if b {
				return a[1]
			}
			return a[2]
		}
		x, y := fltLin(a[1]), fltLin(a[2])
		if in.p.branch(a[0]) {
			return x
		}
		return y
	},
}

const apiNative = `package PKG

import (
	"fmt"
	"math/big"
	"os"
	"strings"
)

type vCase struct {
	Func   string
	Inputs map[string][]string
	Conf   map[string]interface{}
	Repeat int
}

type vStop struct{ what string }

var vCur *vCase
var vPos map[string]int
var vObs []string
var vMsgs []string

func vNext(name string) *big.Rat {
	l := vCur.Inputs[name]
	i := vPos[name]
	if i >= len(l) {
		return new(big.Rat)
	}
	vPos[name]++
	r, ok := new(big.Rat).SetString(l[i])
	if !ok {
		panic(vStop{"bad input " + l[i]})
	}
	return r
}

func vInt(name string, lo, hi int64) int64 {
	r := vNext(name)
	v := r.Num().Int64()
	if v < lo || v > hi {
		panic(vStop{"assume"})
	}
	return v
}

func vFloat(name string, lo, hi float64, g int) float64 {
	r := vNext(name)
	r.Quo(r, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(g))))
	f, _ := r.Float64()
	return f
}

func vBool(name string) bool { return vNext(name).Sign() != 0 }

func vChoice(name string, n int) int { return int(vNext(name).Num().Int64()) }

func vConc(x int64) int64 { return x }

func vAssume(c bool) {
	if !c {
		panic(vStop{"assume"})
	}
}

func vAssert(c bool, label string) {
	if !c {
		panic(vStop{"assert:" + label})
	}
}

func vObserve(name string, v interface{}) {
	var s string
	switch x := v.(type) {
	case float64:
		r := new(big.Rat).SetFloat64(x)
		if r == nil {
			s = fmt.Sprint(x)
		} else {
			s = r.RatString()
		}
	case float32:
		s = new(big.Rat).SetFloat64(float64(x)).RatString()
	case string:
		s = x
	default:
		s = fmt.Sprint(x)
	}
	vObs = append(vObs, name+"="+s)
}

func vCover(label string) {}

func vConf(name string) int64 {
	f, ok := vCur.Conf[name].(float64)
	if !ok {
		panic(vStop{"missing configuration"})
	}
	return int64(f)
}

func vConfS(name string) string {
	s, _ := vCur.Conf[name].(string)
	return s
}

func vTmpDir() string {
	d, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "case")
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(d); err != nil {
		panic(err)
	}
	return d
}

func vSettle() {}

func vRandRewind() { vPos["rand"] = 0 }

func vSymbolic() bool { return false }

func vAnd(a, b bool) bool { return a && b }
func vOr(a, b bool) bool  { return a || b }
func vImp(a, b bool) bool { return !a || b }

func vIteI(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

func vIteF(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}

var _ = strings.Join
`

const testNative = `package PKG

import (
	"encoding/json"
	"fmt"
	"os"
	"testing"
	RANDIMPORT
)

type vOut struct {
	Outcome string
	Obs     []string
}

func vRunCase(c *vCase) (o vOut) {
	vCur = c
	vPos = map[string]int{}
	vObs = nil
	RANDHOOK
	defer func() {
		r := recover()
		o.Obs = vObs
		if r == nil {
			return
		}
		if s, ok := r.(vStop); ok {
			o.Outcome = s.what
			return
		}
		o.Outcome = "panic:" + fmt.Sprint(r)
	}()
	o.Outcome = "ok"
	vFuncs[c.Func]()
	return
}

func TestVerifReplay(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("VERIF_IN"))
	if err != nil {
		t.Fatal(err)
	}
	var cases []*vCase
	if err := json.Unmarshal(b, &cases); err != nil {
		t.Fatal(err)
	}
	f, err := os.Create(os.Getenv("VERIF_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	for _, c := range cases {
		var o vOut
		for i := 0; i <= c.Repeat; i++ {
			o = vRunCase(c)
			if o.Outcome != "ok" && o.Outcome != "assume" {
				break
			}
		}
		j, _ := json.Marshal(o)
		f.Write(append(j, '\n'))
	}
	f.Close()
}

var vFuncs = map[string]func(){
FUNCS
}
`

var _ = fmt.Sprint
var _ = strconv.Itoa
