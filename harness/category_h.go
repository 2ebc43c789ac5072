package PKG

import (
	"math"
	"reflect"
	"strconv"

	"simulator/v2/cache/ai/featuremap"
	"simulator/v2/cache/ai/qlearn"
	"simulator/v2/cache/files"
)

// Harness for the categories of files used by the eviction agent.

type vCatFile struct {
	st      *files.Stats
	in      bool
	size    float64 // when it joined its category
	cat     int
	pos     [3]int // positions of size, request count and recency at the last add or update
	updated bool
}

const vCatMax = 128.0 // capacity the occupancy of a category refers to

func vCatFeatures() *featuremap.FeatureManager {
	number := func(name string, file bool, bounds ...float64) featuremap.Obj {
		return featuremap.Obj{Name: name, Type: "float", ReflectType: reflect.Float64, Float64Values: append(bounds, math.MaxFloat64), Buckets: true, BucketOpenRight: true, FileFeature: file}
	}
	count := func(name string, bounds ...int64) featuremap.Obj {
		return featuremap.Obj{Name: name, Type: "int", ReflectType: reflect.Int64, Int64Values: append(bounds, math.MaxInt64), Buckets: true, BucketOpenRight: true, FileFeature: true}
	}
	m := &featuremap.FeatureManager{FeatureIdxMap: map[string]int{}, FileFeatureIdxMap: map[string]int{}}
	if vConf("recency") > 0 {
		m.Features = []featuremap.Obj{count("catDeltaLastRequest", 5), number("catPercOcc", false, 25), number("catSize", true), count("catNumReq")}
	} else {
		m.Features = []featuremap.Obj{number("catSize", true, 16), number("hitRate", false, 30), count("catNumReq", 1, 2), count("catDeltaLastRequest"), number("catPercOcc", false, 12.5, 37.5), number("percOcc", false, 50)}
	}
	for i, o := range m.Features {
		m.FeatureIdxMap[o.Name] = i
		if o.FileFeature {
			m.FileFeatureIdxMap[o.Name] = len(m.FileFeatures)
			m.FileFeatures = append(m.FileFeatures, o)
		}
	}
	weights := func(fs []featuremap.Obj) []int {
		w := make([]int, len(fs))
		k := 1
		for i := len(fs) - 1; i >= 0; i-- {
			w[i] = k
			k *= fs[i].Size()
		}
		return w
	}
	m.FeatureIdxWeights, m.FileFeatureIdxWeights = weights(m.Features), weights(m.FileFeatures)
	return m
}

// vhCategories: any history of adding, updating and deleting files, the generated decisions compared after each.
func vhCategories() {
	m := vCatFeatures()
	var agent qlearn.Agent
	agent.Init(m, qlearn.EvictionAgent, float64(vConf("epsilon"))/100, 0.001, false, 42)
	for i := range agent.QTable.Actions { // one best action per state
		agent.QTable.Actions[i][i%5] = 1
	}
	var c CategoryManager
	c.Init(m.Features, m.FeatureIdxWeights, m.FileFeatures, m.FileFeatureIdxWeights, m.FileFeatureIdxMap)
	var fs []*vCatFile
	for i := 0; i < int(vConf("files")); i++ {
		f := &vCatFile{st: &files.Stats{Filename: int64(100 + i), Size: float64(vInt("size", 1, 32)), Frequency: int64(vChoice("count", 3)), Recency: vInt("recency", 0, 10)}}
		fs = append(fs, f)
	}
	known := 0
	steps := int(vConf("ops"))
	for i := 0; i < steps; i++ {
		n := known
		if n < len(fs) {
			n++
		}
		k := vChoice("file", n)
		f := fs[k]
		if k == known {
			known++
		}
		if f.in && vBool("delete") {
			c.deleteFileFromCategory(f.cat, f.st)
			f.in = false
			vCover("deleted")
		} else {
			f.st.Frequency++
			if vConf("recency") > 0 {
				f.st.Recency = vInt("recency", 0, 10)
			}
			if vConf("resize") > 0 {
				f.st.Size = float64(vInt("new size", 1, 32))
			}
			cat := c.GetFileCategory(f.st)
			vAssert(c.GetFileCategory(f.st) == cat, "the category of a file is stable")
			c.AddOrUpdateCategoryFile(cat, f.st)
			if f.in {
				vCover("updated")
				if f.cat != cat {
					vCover("moved")
				}
			}
			if !f.in || f.cat != cat {
				f.size = f.st.Size
			}
			f.in, f.cat = true, cat
			for j, name := range []string{"catSize", "catNumReq", "catDeltaLastRequest"} {
				o := m.Features[m.FeatureIdxMap[name]]
				switch j {
				case 0:
					f.pos[j] = o.Index(f.st.Size)
				case 1:
					f.pos[j] = o.Index(f.st.Frequency)
				case 2:
					f.pos[j] = o.Index(f.st.Recency)
				}
			}
		}
		if vConf("last") == 0 || i == steps-1 {
			vCatCheck(&c, m, agent, fs)
		}
	}
}

func vCatCheck(c *CategoryManager, m *featuremap.FeatureManager, agent qlearn.Agent, fs []*vCatFile) {
	cats := map[int]int{}
	sizes := map[int]float64{}
	for i, f := range fs {
		if !f.in {
			continue
		}
		cats[f.cat]++
		sizes[f.cat] += f.size
		for _, g := range fs[:i] {
			if g.in {
				vAssert((g.cat == f.cat) == (g.pos == f.pos), "files share a category exactly when their features agree")
			}
		}
	}
	vAssert(c.GetNumCategories() == len(cats), "one category per combination of features in use")
	var capacity, hitRate float64
	if vConf("recency") == 0 && vConf("last") > 0 {
		capacity, hitRate = vFloat("capacity", 0, 100, 2), vFloat("hit rate", 0, 100, 2)
	}
	var first []CatState
	seen := map[int]bool{}
	for s := range c.GetStateFromCategories(true, agent, capacity, hitRate, vCatMax) {
		first = append(first, s)
		vAssert(!seen[s.Category], "one decision per category")
		seen[s.Category] = true
		vAssert(len(s.Files) == cats[s.Category], "a decision lists as many files as the category has")
		vAssert(len(s.Files) > 0, "no decision for a category without files")
		for _, st := range s.Files {
			n := 0
			for _, o := range s.Files {
				if o == st {
					n++
				}
			}
			vAssert(n == 1, "a decision lists every file once")
			for _, f := range fs {
				if f.st == st {
					vAssert(f.in && f.cat == s.Category, "a decision lists the files of its category")
				}
			}
		}
		state := agent.QTable.States[s.Idx]
		for _, f := range fs {
			if !f.in || f.cat != s.Category {
				continue
			}
			for j, name := range []string{"catSize", "catNumReq", "catDeltaLastRequest"} {
				vAssert(state[m.FeatureIdxMap[name]] == f.pos[j], "the state of a decision has the features of its category")
			}
		}
		for k, o := range m.Features {
			switch o.Name {
			case "catPercOcc":
				vAssert(state[k] == o.Index(sizes[s.Category]/vCatMax*100), "the state of a decision has the occupancy of its category")
			case "percOcc":
				vAssert(state[k] == o.Index(capacity), "the state of a decision has the occupancy of the cache")
			case "hitRate":
				vAssert(state[k] == o.Index(hitRate), "the state of a decision has the hit rate")
			}
		}
		known := false
		for _, x := range agent.QTable.ActionTypes {
			known = known || x == s.Action
		}
		vAssert(known, "a decision is an action of the agent")
		if vConf("epsilon") < 0 {
			vAssert(s.Action == agent.QTable.ActionTypes[s.Idx%5], "a decision that does not explore is the best action of its state")
		}
	}
	vAssert(len(first) == len(cats), "one decision per category")
	if len(first) > 1 {
		vCover("several categories")
	}
	again := 0
	for s := range c.GetStateFromCategories(false, agent, capacity, hitRate, vCatMax) {
		again++
		ok := false
		for _, f := range first {
			if f.Category == s.Category {
				ok = f.Idx == s.Idx && f.Action == s.Action && len(f.Files) == len(s.Files)
			}
		}
		vAssert(ok, "repeated decisions are those taken")
	}
	vAssert(again == len(first), "repeated decisions are those taken")
	vObserve("categories "+strconv.Itoa(len(cats)), int64(len(first)))
}
