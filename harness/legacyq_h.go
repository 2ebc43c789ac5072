package PKG

import "strconv"

// Harnesses for the table of the first Q-learning simulator.

func vLegacyTable() (*QTable, []int, []float64, []ActionType) {
	actions := [][]ActionType{{ActionNotStore, ActionStore}, {ActionStore, ActionNotStore}}[vChoice("order of the actions", 2)]
	n := 1 + vChoice("features", int(vConf("features")))
	var features [][]float64
	var names []string
	var sizes []int
	var last []float64
	for i := 0; i < n; i++ {
		k := 1 + vChoice("values", int(vConf("values")))
		var f []float64
		for j := 0; j < k; j++ {
			f = append(f, float64(10*(j+1)+i))
		}
		if vBool("open") { // the last bound stands for everything else, as -1 of the numbers of requests
			f[k-1] = -1
		}
		features = append(features, f)
		names = append(names, "f"+strconv.Itoa(i))
		sizes = append(sizes, k)
		last = append(last, f[k-1])
	}
	t := &QTable{}
	t.Init(features, names, actions)
	return t, sizes, last, actions
}

func vhLegacyTable() {
	t, sizes, last, actions := vLegacyTable()
	total := 1
	for _, s := range sizes {
		total *= s
	}
	vAssert(len(t.states) == total, "one state per combination of feature values")
	for _, v := range t.states {
		vAssert(len(v) == len(actions), "a value per action in every state")
		for _, x := range v {
			vAssert(x == 0, "action values start at zero")
		}
	}
	var a, b []float64
	same := true
	var pa []int
	for i, k := range sizes {
		x, y := vFloat("x", -5, 60, 2), vFloat("y", -5, 60, 2)
		a, b = append(a, x), append(b, y)
		px, py := k-1, k-1
		for j := k - 1; j >= 0; j-- {
			bound := float64(10*(j+1) + i)
			if j == k-1 {
				bound = last[i]
			}
			if x <= bound {
				px = j
			}
			if y <= bound {
				py = j
			}
		}
		pa = append(pa, px)
		if px != py {
			same = false
		}
	}
	sa, sb := t.GenCurState(a), t.GenCurState(b)
	at := 0
	for i, k := range sizes {
		for j := 0; j < k; j++ {
			want := 0.0
			if j == pa[i] {
				want = 1.0
			}
			vAssert(sa[at] == want, "a state marks the first bound that is not exceeded")
			at++
		}
	}
	vAssert(len(sa) == at, "a state has a place per value of every feature")
	ia, ib := t.GetStateIdx(sa), t.GetStateIdx(sb)
	_, ok := t.states[ia]
	vAssert(ok, "every state is in the table")
	vAssert((ia == ib) == same, "different states have different places")
	vObserve("states", total)
}

func vLegacyClose(a, b float64) bool {
	d := a - b
	return vAnd(d < 1e-6, d > -1e-6)
}

// vhLegacyUpdate: an update of any cell of a table with any values.
func vhLegacyUpdate() {
	t, sizes, _, actions := vLegacyTable()
	var args, other []float64
	for i, k := range sizes {
		args = append(args, float64(10*(1+vChoice("place", k))+i))
		other = append(other, float64(10*(1+vChoice("other", k))+i))
	}
	s, o := t.GenCurState(args), t.GenCurState(other)
	si, oi := t.GetStateIdx(s), t.GetStateIdx(o)
	for _, i := range []uint64{oi, si} {
		for k := range actions {
			t.states[i][k] = vFloat("value", -1000, 1000, 4)
		}
	}
	old := map[ActionType]float64{}
	oldOther := map[ActionType]float64{}
	best := -2000.0
	for _, a := range actions {
		old[a], oldOther[a] = t.GetAction(si, a), t.GetAction(oi, a)
		best = vIteF(old[a] > best, old[a], best)
	}
	got := t.GetBestAction(s)
	vAssert(old[got] == best, "the best action has the largest value")
	lr, dr := t.learningRate, t.DecayRate
	for n := 0; n < int(vConf("updates")); n++ {
		k := actions[vChoice("action", len(actions))]
		r := vFloat("reward", -1000, 1000, 4)
		best := -1e9
		for _, a := range actions {
			best = vIteF(old[a] > best, old[a], best)
		}
		t.Update(s, k, r)
		old[k] = old[k] + lr*(r+dr*best-old[k])
		for _, a := range actions {
			if a == k {
				vAssert(vLegacyClose(t.GetAction(si, a), old[a]), "the value that decisions read follows the rule")
			} else {
				vAssert(t.GetAction(si, a) == old[a], "the values of other actions stay")
			}
			old[a] = t.GetAction(si, a)
			if oi != si {
				vAssert(t.GetAction(oi, a) == oldOther[a], "the values of other states stay")
				vCover("other state")
			}
		}
		best = t.GetAction(si, t.GetBestAction(s))
		for _, a := range actions {
			vAssert(best >= t.GetAction(si, a), "the best action has the largest value")
		}
	}
}
