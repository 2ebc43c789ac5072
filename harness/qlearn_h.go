package PKG

import (
	"math"
	"os"
	"strconv"
	"strings"

	"simulator/v2/cache/ai/featuremap"
)

// Harnesses for the action value tables and the agents.

// vFeatureMap declares features with the given numbers of values; int and float features alternate.
func vFeatureMap(sizes []int) *featuremap.FeatureManager {
	var parts []string
	for i, n := range sizes {
		typ := "int"
		if i%2 == 1 {
			typ = "float"
		}
		var b []string
		for k := 1; k < n; k++ {
			b = append(b, strconv.Itoa(10*k))
		}
		parts = append(parts, `"f`+strconv.Itoa(i)+`": {"type": "`+typ+`", "buckets": [`+strings.Join(b, ",")+`], "openRight": true}`)
	}
	path := vTmpDir() + "/map.json"
	if err := os.WriteFile(path, []byte("{"+strings.Join(parts, ",")+"}"), 0o644); err != nil {
		panic(err)
	}
	m := featuremap.Parse(path)
	return &m
}

func vSizes() []int {
	n := 1 + vChoice("features", int(vConf("features")))
	var sizes []int
	for i := 0; i < n; i++ {
		sizes = append(sizes, 1+vChoice("values", int(vConf("values"))))
	}
	return sizes
}

func vRole() (AgentRole, []ActionType) {
	if vBool("eviction role") {
		return EvictionAgent, []ActionType{ActionNotDelete, ActionDeleteOne, ActionDeleteQuarter, ActionDeleteHalf, ActionDeleteAll}
	}
	return AdditionAgent, []ActionType{ActionNotStore, ActionStore}
}

// vhTable: the table of any features: one state per combination, indexes and combinations correspond.
func vhTable() {
	sizes := vSizes()
	m := vFeatureMap(sizes)
	n := len(sizes)
	role, actions := vRole()
	var a Agent
	a.Init(m, role, 1, 0.001, false, 42)
	t := &a.QTable
	for i := range sizes { // the features come in any order
		sizes[i] = m.Features[i].Size()
	}
	total := 1
	for _, s := range sizes {
		total *= s
	}
	vAssert(len(t.States) == total, "one state per combination of feature values")
	vAssert(len(t.Actions) == total, "action values for every state")
	vAssert(a.NumStates == total, "number of states")
	vAssert(a.NumVars == total*len(actions), "number of action values")
	vAssert(len(t.ActionTypes) == len(actions), "the actions of the role")
	for _, x := range actions {
		i, ok := t.ActionTypeIdxs[x]
		vAssert(ok, "the actions of the role")
		vAssert(t.ActionTypes[i] == x, "positions of the actions")
	}
	for i, s := range t.States {
		vAssert(len(s) == n, "a position per feature in every state")
		vAssert(len(t.Actions[i]) == len(actions), "a value per action in every state")
		for _, v := range t.Actions[i] {
			vAssert(v == 0, "action values start at zero")
		}
		for k, p := range s {
			vAssert(p >= 0 && p < sizes[k], "positions of a state within the features")
		}
		vAssert(t.FeatureIdxs2StateIdx(s...) == i, "positions of a state convert to its index")
	}
	p, q := make([]int, n), make([]int, n)
	same := true
	var order []int // the features come in any order, values are drawn in the declared one
	for i := range sizes {
		k, ok := m.FeatureIdxMap["f"+strconv.Itoa(i)]
		vAssert(ok, "every feature has a position")
		order = append(order, k)
	}
	for _, k := range order {
		p[k] = int(vInt("position", 0, int64(sizes[k]-1)))
		q[k] = int(vInt("other", 0, int64(sizes[k]-1)))
		same = vAnd(same, p[k] == q[k])
	}
	i, j := t.FeatureIdxs2StateIdx(p...), t.FeatureIdxs2StateIdx(q...)
	vAssert(vAnd(i >= 0, i < total), "every combination is inside the table")
	vAssert(vImp(i == j, same), "different combinations have different indexes")
	x := make([]interface{}, n)
	for _, k := range order {
		if m.Features[k].Type == "int" {
			x[k] = vInt("number", -100, 1000)
		} else {
			x[k] = vFloat("number", -100, 1000, 4)
		}
	}
	f := t.Features2Idxs(x...)
	vAssert(len(f) == n, "a position per number")
	for k := range f {
		vAssert(f[k] == m.Features[k].Index(x[k]), "numbers convert to the positions of their buckets")
	}
	s := t.States[t.FeatureIdxs2StateIdx(f...)]
	for k := range f {
		vAssert(s[k] == f[k], "the state of the positions of the numbers")
	}
	vObserve("states", total)
}

func vClose(a, b float64) bool {
	d := a - b
	return vAnd(d < 1e-6, d > -1e-6)
}

// vhUpdate: an update of any cell of a table with any values.
func vhUpdate() {
	m := vFeatureMap([]int{int(vConf("states"))})
	role, actions := vRole()
	var a Agent
	a.Init(m, role, 1, 0.001, false, 42)
	n := len(a.QTable.States)
	old := make([][]float64, n)
	for i := range a.QTable.Actions {
		for k := range a.QTable.Actions[i] {
			v := vFloat("value", -1000, 1000, 4)
			a.QTable.Actions[i][k] = v
			old[i] = append(old[i], v)
		}
	}
	s, next := vChoice("state", n), vChoice("next", n)
	k := vChoice("action", len(actions))
	r := vFloat("reward", -1000, 1000, 4)
	q := vFloat("value function", -1000, 1000, 4)
	a.QValue = q
	best := old[next][0]
	for _, v := range old[next] {
		best = vIteF(v > best, v, best)
	}
	vAssert(a.GetActionValue(s, actions[k]) == old[s][k], "value of a state and action")
	vAssert(a.GetBestActionValue(next) == best, "best value of a state")
	a.UpdateTable(s, next, actions[k], r)
	want := old[s][k] + a.LearningRate*(r+a.DiscountFactor*best-old[s][k])
	for i := range old {
		for j := range old[i] {
			if i == s && j == k {
				vAssert(vClose(a.QTable.Actions[i][j], want), "the updated value follows the rule")
				vAssert(a.GetActionValue(i, actions[j]) == a.QTable.Actions[i][j], "value of the updated state and action")
			} else {
				vAssert(a.QTable.Actions[i][j] == old[i][j], "other values stay")
			}
		}
	}
	vAssert(vClose(a.QValue, q+r), "the value function grows by the reward")
	vAssert(a.LearningRate == 0.9 && a.DiscountFactor == 0.5, "rate and discount stay")
}

// vhBest: the best action has the largest value of its state, ties are broken by any random draw.
func vhBest() {
	m := vFeatureMap([]int{2})
	role, actions := vRole()
	var a Agent
	a.Init(m, role, 1, 0.001, false, 42)
	for k := range actions {
		a.QTable.Actions[1][k] = vFloat("value", -1000, 1000, 4)
	}
	got := a.GetBestAction(1)
	known := false
	for k, x := range actions {
		if got == x {
			known = true
			for j := range actions {
				vAssert(a.QTable.Actions[1][k] >= a.QTable.Actions[1][j], "the best action has the largest value")
			}
		}
	}
	vAssert(known, "the best action is one of the role's")
	v := a.GetBestActionValue(1)
	for j := range actions {
		vAssert(v >= a.QTable.Actions[1][j], "the best value is the largest")
	}
	x := a.GetRandomFloat()
	vAssert(x >= 0 && x < 1, "random draws are within 0..1")
	vObserve("action", int64(got))
	a.ResetTableAction()
	for i := range a.QTable.Actions {
		vAssert(len(a.QTable.Actions[i]) == len(actions), "a reset table keeps its shape")
		for _, v := range a.QTable.Actions[i] {
			vAssert(v == 0, "a reset table is zero")
		}
	}
	r := vFloat("reward", 1, 1000, 4)
	a.UpdateTable(1, 0, actions[0], r)
	for i := range a.QTable.Actions {
		for k, v := range a.QTable.Actions[i] {
			vAssert((v != 0) == (i == 1 && k == 0), "an update of a reset table changes one value")
		}
	}
}

// vhEpsilon: the exploration rate over any updates and unleashes.
func vhEpsilon() {
	m := vFeatureMap([]int{1})
	start := vFloat("start", 0, 1, 8)
	decay := []float64{0.0000042, 0.001, 0.5, 3}[vChoice("decay", 4)]
	allow := vBool("unleash allowed")
	var a Agent
	a.Init(m, AdditionAgent, start, decay, allow, 42)
	if vBool("reset") {
		other := vFloat("restart", 0, 1, 8)
		for i := vChoice("steps before", 3); i > 0; i-- {
			a.UpdateEpsilon()
		}
		a.QValue = 5
		a.ResetParams(other, decay)
		vAssert(a.QValue == 0, "a reset clears the value function")
		start = other
	}
	vAssert(a.Epsilon == start, "the exploration rate starts as configured")
	last := start
	since := 0
	for i := 0; i < int(vConf("steps")); i++ {
		if i > 0 && vBool("unleash") {
			a.UnleashEpsilon(nil)
			if allow {
				vAssert(a.Epsilon == 1, "an unleashed agent explores always")
				since = 0
				vCover("unleashed")
			} else {
				vAssert(a.Epsilon == last, "not unleashed when not allowed")
			}
			last = a.Epsilon
			continue
		}
		a.UpdateEpsilon()
		since++
		vAssert(a.Epsilon <= last, "the exploration rate never increases on an update")
		vAssert(a.Epsilon >= math.Min(last, a.MinEpsilon), "the exploration rate stays above its minimum")
		if last > a.MinEpsilon {
			vAssert(a.Epsilon < last, "the exploration rate decreases towards its minimum")
		} else {
			vAssert(a.Epsilon == last, "no exploration rate below the minimum changes")
		}
		last = a.Epsilon
	}
	vObserve("epsilon", int64(a.Epsilon*1e6))
}

// vhUnleash: unleashing down to a target.
func vhUnleash() {
	m := vFeatureMap([]int{1})
	start := vFloat("start", 0, 1, 8)
	decay := []float64{0.05, 0.5, 3}[vChoice("decay", 3)]
	allow := vBool("unleash allowed")
	var a Agent
	a.Init(m, EvictionAgent, start, decay, allow, 42)
	for i := vChoice("steps", 3); i > 0; i-- {
		a.UpdateEpsilon()
	}
	before := a.Epsilon
	target := float64(3+vChoice("target", 18)) / 20
	a.UnleashEpsilon(target)
	if !allow {
		vAssert(a.Epsilon == before, "not unleashed when not allowed")
		return
	}
	vAssert(a.Epsilon <= target, "unleashed down to the target")
	vAssert(a.Epsilon >= a.MinEpsilon, "the exploration rate stays above its minimum")
	vAssert(vOr(target >= 1, a.MinEpsilon+(a.Epsilon-a.MinEpsilon)*math.Exp(decay) > target-1e-9), "unleashed no further than the target")
	vObserve("epsilon", int64(a.Epsilon*1e6))
}

// vhMemory: remembered choices of two keys, in order, once, the most recent 32 of the bounded memory.
func vhMemory() {
	m := vFeatureMap([]int{1})
	var a Agent
	a.Init(m, AdditionAgent, 1, 0.001, false, 42)
	keys := []interface{}{int64(7), int64(9)}
	if vBool("text keys") {
		keys = []interface{}{"NotDelete", "OneCall"}
	}
	var want [2][]Choice
	fill := vChoice("filled", 4)
	for i := 0; i < []int{0, 30, 31, 33}[fill]; i++ {
		c := Choice{State: i, Tick: int64(i)}
		a.SaveMemory(keys[0], c)
		want[0] = append(want[0], c)
		if len(want[0]) > 32 {
			want[0] = want[0][1:]
		}
	}
	for i := 0; i < int(vConf("ops")); i++ {
		k := vChoice("key", 2)
		switch vChoice("op", 4) {
		case 0:
			c := Choice{State: i, Action: ActionStore, Tick: vInt("tick", 0, 1<<40), DeltaT: int64(i), Hit: vBool("hit"), Frequency: vInt("frequency", 1, 1000), Size: vFloat("size", 0, 1000, 4), Capacity: vFloat("capacity", 0, 100, 4)}
			a.SaveMemory(keys[k], c)
			want[k] = append(want[k], c)
			if len(want[k]) > 32 {
				want[k] = want[k][1:]
				vCover("oldest forgotten")
			}
		case 1:
			c := Choice{State: 100 + i, Action: ActionNotStore, Tick: vInt("tick", 0, 1<<40)}
			n := len(want[k])
			a.SaveMemoryWithNoLimits(keys[k], c)
			vAssert(len(a.Memory[keys[k]]) == n+1, "unlimited memory forgets nothing")
			want[k] = append(want[k], c)
			if n >= 32 {
				return
			}
		case 2:
			got, ok := a.Remember(keys[k])
			vAssert(ok == (len(want[k]) > 0), "remembers whether there were choices")
			vAssert(len(got) == len(want[k]), "all choices are remembered")
			for j := range got {
				vAssert(got[j] == want[k][j], "choices are remembered in order")
			}
			want[k] = nil
			again, ok := a.Remember(keys[k])
			vAssert(!ok && len(again) == 0, "choices are remembered once")
			vCover("remembered")
		case 3:
			a.DeleteMemory(keys[k])
			want[k] = nil
		}
		for k := range keys {
			got := a.Memory[keys[k]]
			vAssert(len(got) == len(want[k]), "number of choices of each key")
			for j := range got {
				vAssert(got[j] == want[k][j], "choices of each key in order")
			}
		}
	}
	if vBool("reset") {
		a.ResetMemories()
		vAssert(len(a.Memory) == 0, "a reset forgets everything")
	}
}
