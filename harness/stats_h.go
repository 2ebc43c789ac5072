package PKG

import (
	"math"
	"time"
)

// Reference model of the per-file statistics.

const vDaySec = 86400

type vStat struct {
	name        int64
	st          *Stats
	tracked     bool
	size        float64
	nhit, nmiss int64
	tick, delta int64
	first, last int64   // seconds
	times       []int64 // all request times
	weight      float64
}

type vStats struct {
	m      Manager
	files  []*vStat
	now    int64
	tick   int64
	since  int64 // previous purge
	begun  bool
	maxDay float64
	step   float64
	known  int
}

func vNewStats(n int) *vStats {
	v := &vStats{}
	for i := 0; i < n; i++ {
		f := &vStat{name: vInt("name", -1<<50, 1<<50)}
		for _, o := range v.files {
			vAssume(o.name != f.name)
		}
		v.files = append(v.files, f)
	}
	v.maxDay = vFloat("maxdays", 0, 64, 1)
	v.step = vFloat("stepdays", 0, 64, 1)
	v.m.Init(v.maxDay, v.step, true)
	return v
}

// pass lets an arbitrary time pass.
func (v *vStats) pass() {
	if vConf("wholedays") > 0 {
		if v.now == 0 {
			v.now = vInt("day", 1, 20000) * vDaySec
			return
		}
		v.now += vInt("days", 0, 64) * vDaySec
		return
	}
	if v.now == 0 {
		v.now = vInt("start", 1, 1<<31)
		return
	}
	v.now += vInt("secs", 0, 1<<24)
}

func (v *vStats) request(f *vStat, wf func(int64, float64, float64, float64, float64, float64) float64) {
	v.pass()
	hit := v.tick%3 == 1
	if vConf("wholedays") == 0 {
		hit = vBool("hit")
	}
	size := float64(vInt("size", 0, 1<<30))
	st, isNew := v.m.GetOrCreate(f.name, size, time.Unix(v.now, 0), v.tick)
	vAssert(isNew == !f.tracked, "new exactly when not tracked")
	if f.tracked {
		vAssert(st == f.st, "one statistics record per file")
		f.delta = v.tick - f.tick
	} else {
		*f = vStat{name: f.name, st: st, tracked: true, first: v.now, delta: math.MaxInt64}
	}
	st.UpdateStats(hit, size, vInt("user", 0, 1000), vInt("site", 0, 1000), time.Unix(v.now, 0))
	f.size = size
	f.nhit = vIteI(hit, f.nhit+1, f.nhit)
	f.nmiss = vIteI(hit, f.nmiss, f.nmiss+1)
	f.tick = v.tick
	f.last = v.now
	f.times = append(f.times, v.now)
	if !v.begun {
		v.begun = true
		v.since = v.now
	}
	if wf != nil {
		v.m.UpdateWeight(st, isNew, wf, 1, 1, 1)
		f.weight = st.Weight
	}
	v.tick++
}

func (f *vStat) recent() []int64 {
	if len(f.times) > 32 {
		return f.times[len(f.times)-32:]
	}
	return f.times
}

// fields compares a record with the history of its file.
func (v *vStats) fields(f *vStat) {
	st := f.st
	vAssert(v.m.Get(f.name) == st, "record is found by name")
	vAssert(st.Filename == f.name, "name")
	vAssert(st.Size == f.size, "size of the last request")
	vAssert(st.Frequency == f.nhit+f.nmiss, "request count")
	vAssert(st.NHits == f.nhit, "hits")
	vAssert(st.NMiss == f.nmiss, "misses")
	vAssert(st.Recency == f.tick, "sequence number of the last request")
	vAssert(st.DeltaLastRequest == f.delta, "gap to the request before the last")
	vAssert(st.StatInsertTime.Unix() == f.first, "time of the first request")
	vAssert(st.StatLastUpdateTime.Unix() == f.last, "time of the last request")
	r := f.recent()
	vAssert(len(st.RequestedTimes) == len(r), "number of recorded times")
	sum, got := int64(0), int64(0)
	for _, t := range r {
		some := false
		for _, g := range st.RequestedTimes {
			some = vOr(some, g.Unix() == t)
		}
		vAssert(some, "every recent request time is recorded")
		sum += t
	}
	for _, g := range st.RequestedTimes {
		got += g.Unix()
	}
	vAssert(sum == got, "exactly the recent request times are recorded")
}

func (v *vStats) age(f *vStat) float64 {
	sum := int64(0)
	for _, t := range f.recent() {
		sum += f.last - t
	}
	return float64(sum) / 60 / 32
}

func vNear(a, b float64) bool {
	d := a - b
	return vAnd(d < 1.0/65536, d > -1.0/65536)
}

// vhStatsFields: any request history; every record stays equal to the history of its file.
func vhStatsFields() {
	v := vNewStats(int(vConf("files")))
	mean := -1.0
	wf := func(n int64, size, ticks, a, b, c float64) float64 {
		mean = ticks
		return float64(n)
	}
	ops := int(vConf("ops"))
	for i := 0; i < ops; i++ {
		n := v.known
		if n < len(v.files) {
			n++
		}
		k := vChoice("file", n)
		if k == v.known {
			v.known++
		}
		f := v.files[k]
		v.request(f, wf)
		vAssert(vNear(mean, v.age(f)), "mean age of the recorded requests")
		for _, o := range v.files {
			if o.tracked {
				v.fields(o)
			} else {
				_, in := v.m.Data[o.name]
				vAssert(!in, "no record before the first request")
			}
		}
	}
	if len(v.files[0].times) > 1 {
		vCover("repeated request")
	}
	vObserve("freq", v.files[0].st.Frequency)
}

// vhStatsRing: more requests for one file than the record holds, another file in between.
func vhStatsRing() {
	v := vNewStats(2)
	a, b := v.files[0], v.files[1]
	n := int(vConf("requests"))
	at := vChoice("other", n)
	for i := 0; i < n; i++ {
		v.request(a, nil)
		if i == at {
			v.request(b, nil)
		}
	}
	v.fields(a)
	v.fields(b)
	mean := -1.0
	v.request(a, func(n int64, size, ticks, x, y, z float64) float64 {
		mean = ticks
		return 1
	})
	vAssert(vNear(mean, v.age(a)), "mean age of the recorded requests")
	v.fields(a)
	v.fields(b)
	vCover("wrapped")
	vObserve("freq", a.st.Frequency)
}

// vhStatsPurge: requests with arbitrary weights and days, purges with arbitrary residents.
func vhStatsPurge() {
	v := vNewStats(int(vConf("files")))
	prop := vConf("prop")
	ops := int(vConf("ops"))
	for i := 0; i < ops; i++ {
		op := 0
		if i > 0 {
			op = vChoice("op", 2+int(vConf("clear")))
		}
		switch op {
		case 0:
			n := v.known
			if n < len(v.files) {
				n++
			}
			k := vChoice("file", n)
			if k == v.known {
				v.known++
			}
			v.request(v.files[k], func(n int64, size, ticks, x, y, z float64) float64 {
				return vFloat("weight", -1048576, 1048576, 10)
			})
		case 1:
			v.purge(prop == 12)
		case 2:
			v.m.Clear()
		}
		if prop == 12 {
			vAssert(v.m.Dirty() == (float64(v.now-v.since) >= v.step*vDaySec), "purge due exactly when its period has elapsed")
		}
		n := 0
		sum := 0.0
		for _, f := range v.files {
			if f.tracked {
				n++
				sum += f.weight
			}
		}
		if prop == 12 {
			vAssert(len(v.m.Data) == n, "number of records")
		}
		if prop == 13 && n > 0 {
			vAssert(vNear(v.m.GetWeightMedian(), sum/float64(n)), "mean weight of the tracked files")
		}
	}
	vObserve("records", len(v.m.Data))
}

func (v *vStats) purge(check bool) {
	in := map[int64]bool{}
	for _, f := range v.files {
		if f.tracked {
			in[f.name] = vChoice("resident", 2) == 1
		}
	}
	v.m.Purge(func(name int64) bool { return in[name] })
	v.since = v.now
	for _, f := range v.files {
		if !f.tracked {
			continue
		}
		st, still := v.m.Data[f.name]
		if in[f.name] {
			if check {
				vAssert(still, "statistics of a resident file are kept")
			}
			continue
		}
		old := float64(v.now-f.last) >= v.maxDay*vDaySec
		if check {
			vAssert(still == !old, "statistics are dropped exactly when unused for long")
		}
		if !still {
			f.tracked = false
			vCover("purged")
		} else if check {
			vAssert(st == f.st, "kept statistics are untouched")
		}
	}
}
