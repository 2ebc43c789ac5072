package PKG

import (
	"compress/gzip"
	"io"
	"math"
	"os"
	"reflect"
	"strconv"
	"strings"
)

// Harnesses for feature maps.

type vFeature struct {
	name, typ  string
	ints       []int64
	floats     []float64
	strs       []string
	bools      []bool
	open, file bool
	fixed      bool // "values" instead of "buckets"
}

func (f *vFeature) size() int {
	n := len(f.ints) + len(f.floats) + len(f.strs) + len(f.bools)
	if f.open && (f.typ == "int" || f.typ == "float") {
		n++
	}
	return n
}

var vTypes = []string{"int", "float", "string", "bool"}

const vBig = 1 << 50

// vDrawFeature draws the declaration of a feature: bounds in increasing order, distinct values.
func vDrawFeature(name string, most int) *vFeature {
	f := &vFeature{name: name, typ: vTypes[vChoice("type", int(vConf("types")))]}
	n := 1 + vChoice("values", most)
	switch f.typ {
	case "int":
		for i := 0; i < n; i++ {
			x := vInt("bound", -vBig, vBig)
			if i > 0 {
				vAssume(f.ints[i-1] < x)
			}
			f.ints = append(f.ints, x)
		}
	case "float":
		for i := 0; i < n; i++ {
			x := vFloat("bound", -(1 << 30), 1<<30, 8)
			if i > 0 {
				vAssume(f.floats[i-1] < x)
			}
			f.floats = append(f.floats, x)
		}
	case "string":
		f.strs = []string{"global", "", "x y"}[:n]
	case "bool":
		if n > 1 {
			f.bools = []bool{false, true}
		} else {
			f.bools = []bool{true}
		}
		if vBool("true first") && n > 1 {
			f.bools = []bool{true, false}
		}
	}
	f.open = vBool("open")
	f.file = vBool("file feature")
	f.fixed = vBool("values entry")
	return f
}

func (f *vFeature) json() string {
	var vals []string
	for _, x := range f.ints {
		vals = append(vals, strconv.FormatInt(x, 10))
	}
	for _, x := range f.floats {
		vals = append(vals, strconv.FormatFloat(x, 'f', -1, 64))
	}
	for _, x := range f.strs {
		vals = append(vals, strconv.Quote(x))
	}
	for _, x := range f.bools {
		vals = append(vals, strconv.FormatBool(x))
	}
	key := "buckets"
	if f.fixed {
		key = "values"
	}
	s := strconv.Quote(f.name) + `: {"type": "` + f.typ + `", "` + key + `": [` + strings.Join(vals, ", ") + `]`
	if f.open {
		s += `, "openRight": true`
	}
	if f.file {
		s += `, "fileFeature": true`
	}
	return s + "}"
}

func vMapFile(text, name string, gz bool) string {
	path := vTmpDir() + "/" + name
	out, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	if gz {
		z := gzip.NewWriter(out)
		io.WriteString(z, text)
		z.Close()
	} else {
		io.WriteString(out, text)
	}
	out.Close()
	return path
}

func (f *vFeature) check(o Obj, what string) {
	vAssert(o.Name == f.name && o.Type == f.typ, what+": name and type")
	vAssert(o.FileFeature == f.file, what+": file feature")
	n := f.size()
	vAssert(o.Size() == n, what+": number of values")
	k := 0
	ch := o.Values()
	for i := 0; i < n; i++ {
		v := o.Value(i)
		last := f.open && i == n-1
		ok := false
		switch f.typ {
		case "int":
			if last {
				ok = v.(int64) == math.MaxInt64
			} else {
				ok = v.(int64) == f.ints[i]
			}
		case "float":
			if last {
				ok = v.(float64) == math.MaxFloat64
			} else {
				ok = v.(float64) == f.floats[i]
			}
		case "string":
			ok = v.(string) == f.strs[i]
		case "bool":
			ok = v.(bool) == f.bools[i]
		}
		vAssert(ok, what+": value at each position")
		vAssert(o.Index(v) == i, what+": index of each value")
		w, more := <-ch
		vAssert(more, what+": every value is listed")
		vAssert(w.Idx == i && reflect.DeepEqual(w.Val, v), what+": values listed in order")
		k++
	}
	_, more := <-ch
	vAssert(!more, what+": no value is listed twice")
}

// probe checks the position of an arbitrary value.
func (f *vFeature) probe(o Obj, what string) {
	switch f.typ {
	case "int":
		x := vInt("value", -2*vBig, 2*vBig)
		got := o.Index(x)
		want := -1
		for i, b := range f.ints {
			if x <= b {
				want = i
				break
			}
		}
		if want < 0 && f.open {
			want = len(f.ints)
		}
		vAssert(got == want, what+": first bucket whose bound is at least the number")
		y := vInt("higher", -2*vBig, 2*vBig)
		vAssume(x <= y)
		h := o.Index(y)
		vAssert(vOr(h < 0, h >= got && got >= 0), what+": index grows with the number")
		if f.open {
			vAssert(h >= 0, what+": open feature has a bucket for every number")
			vAssert(o.Index(int64(math.MaxInt64)) == len(f.ints), what+": open feature has a bucket for every number")
			vCover("open")
		}
		if want < 0 {
			vCover("above")
		}
	case "float":
		x := vFloat("value", -(1 << 31), 1<<31, 8)
		got := o.Index(x)
		want := -1
		for i, b := range f.floats {
			if x <= b {
				want = i
				break
			}
		}
		if want < 0 && f.open {
			want = len(f.floats)
		}
		vAssert(got == want, what+": first bucket whose bound is at least the number")
		if f.open {
			vAssert(o.Index(math.MaxFloat64) == len(f.floats), what+": open feature has a bucket for every number")
			vCover("open")
		}
		if want < 0 {
			vCover("above")
		}
	case "string":
		vAssert(o.Index("neither") == -1, what+": unknown string")
	}
}

// vhFeature: one declared feature, read back and probed with any value.
func vhFeature() {
	f := vDrawFeature("someName", int(vConf("values")))
	gz := vConf("gz") > 0
	name := "map.json"
	if gz {
		name = "map.json.gz"
		if vBool("other suffix") {
			name = "map.gzip"
		}
	}
	m := Parse(vMapFile("{"+f.json()+"}", name, gz))
	vAssert(len(m.Features) == 1, "one feature per entry")
	o := m.Features[0]
	f.check(o, f.typ)
	f.probe(o, f.typ)
	vObserve("size", o.Size())
}

// vhFeatureLarge: a feature with large bounds, probed with any number.
func vhFeatureLarge() {
	f := &vFeature{name: "someName", typ: "int", ints: []int64{-(1 << 62), -(1<<53 + 2), 1 << 53, 1<<53 + 2, 1 << 60}, open: vBool("open")}
	m := Parse(vMapFile("{"+f.json()+"}", "map.json", false))
	o := m.Features[0]
	f.check(o, f.typ)
	x := vInt("value", math.MinInt64, math.MaxInt64)
	want := -1
	for i, b := range f.ints {
		if x <= b {
			want = i
			break
		}
	}
	if want < 0 && f.open {
		want = len(f.ints)
	}
	vAssert(o.Index(x) == want, "first bucket whose bound is at least the number")
}

// vhFeatureMap: several declared features, in any order the map yields them.
func vhFeatureMap() {
	n := int(vConf("features"))
	var fs []*vFeature
	var parts []string
	nf := 0
	for i := 0; i < n; i++ {
		f := vDrawFeature("f"+strconv.Itoa(i), int(vConf("values")))
		fs = append(fs, f)
		parts = append(parts, f.json())
		if f.file {
			nf++
		}
	}
	m := Parse(vMapFile("{"+strings.Join(parts, ", ")+"}", "map.json", false))
	vAssert(len(m.Features) == n, "one feature per entry")
	vAssert(len(m.FeatureIdxMap) == n, "every feature has a position")
	vAssert(len(m.FileFeatures) == nf, "one file feature per entry declared so")
	vAssert(len(m.FileFeatureIdxMap) == nf, "every file feature has a position")
	vAssert(len(m.FeatureIdxWeights) == n, "a weight per feature")
	vAssert(len(m.FileFeatureIdxWeights) == nf, "a weight per file feature")
	for _, f := range fs {
		i, ok := m.FeatureIdxMap[f.name]
		vAssert(ok, "every feature has a position")
		f.check(m.Features[i], "feature")
		if f.file {
			j, ok := m.FileFeatureIdxMap[f.name]
			vAssert(ok, "every file feature has a position")
			f.check(m.FileFeatures[j], "file feature")
		}
	}
	w := 1
	for i := n - 1; i >= 0; i-- {
		vAssert(m.FeatureIdxWeights[i] == w, "weight is the product of the sizes of the following features")
		w *= m.Features[i].Size()
	}
	w = 1
	for i := nf - 1; i >= 0; i-- {
		vAssert(m.FileFeatureIdxWeights[i] == w, "weight is the product of the sizes of the following file features")
		w *= m.FileFeatures[i].Size()
	}
	vObserve("states", w)
}
