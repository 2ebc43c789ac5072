package PKG

import (
	"time"

	"simulator/v2/cache/functions"
)

// Harnesses that compare two caches, or follow per-file statistics through a cache.

// vReply is everything one request shows.
type vReply struct {
	hit, added, redirected bool
	freq                   int64
	weight, size, age      float64
	delta, nhit, nmiss     int64
	first                  int64
}

// vServe serves a request step by step, as GetFile does, and reports what it shows.
func vServe(c Cache, name int64, size float64, day int64) vReply {
	r := vReply{}
	req := Request{Filename: name, Size: size, Day: day, DayTime: time.Unix(day, 0), SiteName: 3, UserID: 7, FileType: 2, Protocol: 1, CPUEff: 50}
	r.hit = Check(c, name)
	if !r.hit {
		r.redirected = CheckRedirect(c, name, size)
	}
	if r.redirected {
		return r
	}
	st, hit := BeforeRequest(c, &req, r.hit)
	r.freq = st.Frequency
	r.weight = st.Weight
	r.delta = st.DeltaLastRequest
	r.size, r.age, r.nhit, r.nmiss, r.first = st.Size, st.RequestedTimesMean, st.NHits, st.NMiss, st.StatInsertTime.Unix()
	r.added = UpdatePolicy(c, &req, st, hit)
	AfterRequest(c, &req, st, hit, r.added)
	CheckWatermark(c)
	return r
}

type vPlan struct {
	pol   int64
	max   float64
	p     InitParameters
	par   WeightFunctionParameters
	bw    float64
	files []*vFile
	known int
	day   int64
}

// vNewPlan: an arbitrary configuration and files with arbitrary names and sizes.
func vNewPlan() *vPlan {
	v := &vPlan{pol: vConf("policy"), day: 20000}
	v.files = vNames(int(vConf("files")))
	top := vConf("sizebits")
	for _, f := range v.files {
		f.size = float64(vInt("size", 0, 1<<top))
	}
	if k := vConf("max"); k > 0 {
		v.max = float64(k)
	} else {
		v.max = float64(vInt("max", 1, 1<<(top+2)))
	}
	v.p = InitParameters{MaxNumDayDiff: 1000, DeltaDaysStep: 1000, RandSeed: 42}
	if vConf("purge") > 0 {
		v.p.MaxNumDayDiff = float64(vInt("maxdays", 0, 32))
		v.p.DeltaDaysStep = float64(vInt("stepdays", 1, 32))
	}
	v.par = WeightFunctionParameters{Alpha: float64(vConf("alpha")), Beta: float64(vConf("beta")), Gamma: float64(vConf("gamma"))}
	if v.pol == vpWeight {
		v.p.WfParams = v.par
		switch vConf("function") {
		case 0:
			v.p.FunctionTypeString, v.p.WfType = "FuncAdditive", functions.Additive
		case 1:
			v.p.FunctionTypeString, v.p.WfType = "FuncAdditiveExp", functions.AdditiveExp
		case 2:
			v.p.FunctionTypeString, v.p.WfType = "FuncMultiplicative", functions.Multiplicative
		}
	}
	if v.pol == vpDataset {
		v.p.Dataset2TestPath = vWriteDataset(v.files)
	}
	if b := vConf("redirect"); b > 0 {
		v.p.RedirectReq = true
		v.bw = float64(b) / 1024
	}
	return v
}

func (v *vPlan) fresh() Cache {
	c := Create(vTypeOf(v.pol), v.max, "M", "FuncAdditive", v.par)
	InitInstance(vTypeOf(v.pol), c, v.p)
	if v.bw > 0 {
		SetBandwidth(c, v.bw)
	}
	return c
}

func (v *vPlan) pick() *vFile {
	n := v.known
	if n < len(v.files) {
		n++
	}
	k := vChoice("file", n)
	if k == v.known {
		v.known++
	}
	return v.files[k]
}

// pass: with purging, an arbitrary number of days passes before a request.
func (v *vPlan) pass() int64 {
	if vConf("purge") > 0 || vConf("days") > 0 {
		v.day += vInt("days", 0, 16)
	}
	return v.day * 86400
}

func vSameReply(a, b vReply, what string) {
	vAssert(a.hit == b.hit, what+": hit")
	vAssert(a.added == b.added, what+": stored")
	vAssert(a.redirected == b.redirected, what+": redirected")
	vAssert(a.freq == b.freq, what+": request count")
	vAssert(vNear(a.weight, b.weight), what+": weight")
	vAssert(a.size == b.size, what+": recorded size")
	vAssert(vNear(a.age, b.age), what+": mean request age")
	vAssert(a.nhit == b.nhit, what+": recorded hits")
	vAssert(a.nmiss == b.nmiss, what+": recorded misses")
	vAssert(a.first == b.first, what+": time of the first request")
}

func vSameCounters(a, b Cache, what string) {
	vAssert(NumRequests(a) == NumRequests(b), what+": requests")
	vAssert(NumHits(a) == NumHits(b), what+": hits")
	vAssert(NumAdded(a) == NumAdded(b), what+": additions")
	vAssert(NumDeleted(a) == NumDeleted(b), what+": deletions")
	vAssert(NumRedirected(a) == NumRedirected(b), what+": redirections")
	vAssert(RedirectedSize(a) == RedirectedSize(b), what+": redirected size")
	vAssert(DataRead(a) == DataRead(b), what+": data read")
	vAssert(DataReadOnHit(a) == DataReadOnHit(b), what+": data read on hits")
	vAssert(DataReadOnMiss(a) == DataReadOnMiss(b), what+": data read on misses")
	vAssert(DataWritten(a) == DataWritten(b), what+": data written")
	vAssert(DataDeleted(a) == DataDeleted(b), what+": data deleted")
}

func (v *vPlan) sameContents(a, b Cache, what string) {
	vAssert(Size(a) == Size(b), what+": size")
	vAssert(a.(vNumFiles).NumFiles() == b.(vNumFiles).NumFiles(), what+": number of files")
	for _, f := range v.files {
		vAssert(Check(a, f.name) == Check(b, f.name), what+": residents")
	}
}

// sameOrder evicts the files of both one at a time.
func (v *vPlan) sameOrder(a, b Cache, what string) {
	if v.pol == vpRandom || v.pol == vpInfinite {
		return
	}
	for i := 0; i < len(v.files); i++ {
		x, y := a.Free(1, false), b.Free(1, false)
		vAssert(x == y, what+": size of the next victim")
		v.sameContents(a, b, what+" while emptying")
	}
	vAssert(Size(a) == 0, what+": emptied")
}

// vhClear: any history, a full clear, then any history: as a fresh cache.
func vhClear() {
	v := vNewPlan()
	a, b := v.fresh(), v.fresh()
	start := v.day
	pre := int(vConf("before"))
	for i := 0; i < pre; i++ {
		f := v.pick()
		r := vServe(a, f.name, f.size, v.pass())
		if r.hit {
			vCover("hit before")
		}
	}
	Clear(a)
	_ = start
	vAssert(Size(a) == 0, "cleared: size")
	vAssert(GetTotDeletedFileMiss(a) == 0, "cleared: misses after delete")
	vSameCounters(a, b, "cleared")
	v.sameContents(a, b, "cleared")
	post := int(vConf("after"))
	for i := 0; i < post; i++ {
		f := v.pick()
		d := v.pass()
		x, y := vServe(a, f.name, f.size, d), vServe(b, f.name, f.size, d)
		vSameReply(x, y, "after clear")
		vAssert(x.delta == y.delta, "after clear: gap since the last request")
		vSameCounters(a, b, "after clear")
		vAssert(GetMaxSize(a) == GetMaxSize(b), "after clear: capacity")
		vAssert(vNear(AvgFreeSpace(a), AvgFreeSpace(b)), "after clear: free space")
		vAssert(GetTotDeletedFileMiss(a) == GetTotDeletedFileMiss(b), "after clear: misses after delete")
		v.sameContents(a, b, "after clear")
		if x.hit {
			vCover("hit after")
		}
	}
	vObserve("size", Size(a))
	v.sameOrder(a, b, "after clear")
}

// vhClearParts: clearing statistics leaves contents and records, clearing files leaves counters and records.
func vhClearParts() {
	v := vNewPlan()
	a, b := v.fresh(), v.fresh()
	pre := int(vConf("before"))
	for i := 0; i < pre; i++ {
		f := v.pick()
		d := v.pass()
		vServe(a, f.name, f.size, d)
		vServe(b, f.name, f.size, d)
	}
	post := int(vConf("after"))
	if vConf("stats") == 1 {
		ClearStats(a)
		z := v.fresh()
		vSameCounters(a, z, "statistics cleared")
		v.sameContents(a, b, "statistics cleared")
		ClearStats(b) // from here on both count alike; only contents could differ
		for i := 0; i < post; i++ {
			f := v.pick()
			d := v.pass()
			vSameReply(vServe(a, f.name, f.size, d), vServe(b, f.name, f.size, d), "after clearing statistics")
			v.sameContents(a, b, "after clearing statistics")
		}
		v.sameOrder(a, b, "after clearing statistics")
		return
	}
	ClearFiles(a)
	vAssert(Size(a) == 0, "files cleared: size")
	for _, f := range v.files {
		vAssert(!Check(a, f.name), "files cleared: residents")
	}
	vSameCounters(a, b, "files cleared")
	freq := map[int64]int64{}
	known := v.known
	for i := 0; i < post; i++ {
		f := v.pick()
		d := v.pass()
		r := vServe(a, f.name, f.size, d)
		_ = known
		freq[f.name]++
		if freq[f.name] == 1 && !r.redirected {
			vAssert(!r.hit, "files cleared: first request misses")
		}
	}
	vObserve("size", Size(a))
}

// vhFileStats: per-file records through a cache: kept for residents, dropped only when long unused and the period is over.
func vhFileStats() {
	v := vNewPlan()
	c := v.fresh()
	type rec struct {
		freq, last int64
		tracked    bool
	}
	recs := make([]*rec, len(v.files))
	for i := range recs {
		recs[i] = &rec{}
	}
	since := int64(-1)
	ops := int(vConf("ops"))
	for i := 0; i < ops; i++ {
		k := 0
		f := v.pick()
		for j, o := range v.files {
			if o == f {
				k = j
			}
		}
		d := v.pass()
		if since < 0 {
			since = v.day
		}
		r := vServe(c, f.name, f.size, d)
		q := recs[k]
		if q.tracked {
			vAssert(r.freq == q.freq+1, "the record of the file was kept")
		} else {
			vAssert(r.freq == 1, "the record of the file is new")
		}
		q.tracked = true
		q.freq = r.freq
		q.last = v.day
		if float64(v.day-since) >= v.p.DeltaDaysStep {
			since = v.day
			vCover("purge due")
			for j, o := range v.files {
				if recs[j].tracked && !Check(c, o.name) && float64(v.day-recs[j].last) >= v.p.MaxNumDayDiff {
					recs[j].tracked = false
					vCover("purged")
				}
			}
		}
	}
	// every record is still there, or not, as it should
	for j, f := range v.files {
		if j >= v.known {
			break
		}
		st, _ := BeforeRequest(c, &Request{Filename: f.name, Size: f.size, DayTime: time.Unix(v.day*86400, 0)}, false)
		if recs[j].tracked {
			vAssert(st.Frequency == recs[j].freq+1, "the record of the file was kept")
		} else {
			vAssert(st.Frequency == 1, "the record of the file is new")
		}
	}
	vObserve("size", Size(c))
}

// vhWeighted: the weighted cache stores a miss exactly when its weight is at most the mean and it fits.
func vhWeighted() {
	v := vNewPlan()
	c := v.fresh()
	type rec struct {
		freq, last int64
		tracked    bool
		weight     float64
		times      []int64
	}
	recs := make([]*rec, len(v.files))
	for i := range recs {
		recs[i] = &rec{}
	}
	since := int64(-1)
	ops := int(vConf("ops"))
	pw := func(x float64, n int64) float64 {
		r := 1.0
		for ; n > 0; n-- {
			r *= x
		}
		return r
	}
	for i := 0; i < ops; i++ {
		if i > 0 && vConf("clear") > 0 && vChoice("op", 2) == 1 {
			ClearFiles(c)
			continue
		}
		k := 0
		f := v.pick()
		for j, o := range v.files {
			if o == f {
				k = j
			}
		}
		d := v.pass()
		if since < 0 {
			since = v.day
		}
		before := Size(c)
		r := vServe(c, f.name, f.size, d)
		q := recs[k]
		if !q.tracked {
			*q = rec{tracked: true}
		}
		q.freq++
		q.last = v.day
		q.times = append(q.times, v.day)
		age := 0.0
		for _, t := range q.times {
			age += float64(v.day-t) * 1440 / 32
		}
		w := 0.0
		al, be, ga := vConf("alpha"), vConf("beta"), vConf("gamma")
		switch vConf("function") {
		case 0:
			w = float64(al)*float64(q.freq) + float64(be)*f.size + float64(ga)*age
		case 1:
			w = pw(float64(q.freq), al) + pw(f.size, be) + pw(age, ga)
		case 2:
			w = pw(float64(q.freq), al) * pw(f.size, be) * pw(age, ga)
		}
		q.weight = w
		vAssert(vNear(r.weight, w), "weight of the requested file")
		sum, n := 0.0, 0
		for _, o := range recs {
			if o.tracked {
				sum += o.weight
				n++
			}
		}
		const eps = 1.0 / 65536
		if !r.hit {
			over := w*float64(n)-sum > eps
			under := w*float64(n)-sum < -eps
			vAssert(vImp(over, !r.added), "a file above the mean weight is not stored")
			vAssert(vImp(over, Size(c) == before), "a file above the mean weight evicts nothing")
			vAssert(vImp(r.added, f.size <= v.max), "a stored file fits")
			if n == 1 {
				vAssert(vImp(f.size <= v.max, r.added), "a file at the mean weight is stored if it fits")
			}
			vAssert(vImp(vAnd(under, f.size <= v.max), r.added), "a file below the mean weight is stored if it fits")
			if r.added {
				vCover("stored")
			} else {
				vCover("declined")
			}
		} else {
			vCover("hit")
		}
		if float64(v.day-since) >= v.p.DeltaDaysStep {
			since = v.day
			for j, o := range v.files {
				if recs[j].tracked && !Check(c, o.name) && float64(v.day-recs[j].last) >= v.p.MaxNumDayDiff {
					recs[j].tracked = false
					vCover("purged")
				}
			}
		}
	}
	vObserve("size", Size(c))
}

// vhRedirectEdge: the data read on misses is exactly at, just below or just above 95% of the bandwidth.
func vhRedirectEdge() {
	pol := vConf("policy")
	files := vNames(3)
	p := InitParameters{MaxNumDayDiff: 1000, DeltaDaysStep: 1000, RandSeed: 42, RedirectReq: true}
	if pol == vpDataset {
		p.Dataset2TestPath = vWriteDataset(files)
	}
	c := Create(vTypeOf(pol), 1<<22, "M", "FuncAdditive", WeightFunctionParameters{})
	InitInstance(vTypeOf(pol), c, p)
	SetBandwidth(c, 1.0/32) // 337500 MB a day
	const edge = 320625
	side := vChoice("side", 3)
	a := vInt("size", 1, edge-2)
	serve := func(i int, size int64) (bool, bool) {
		return GetFile(c, files[i].name, float64(size), int64(1), 0.0, int64(20000*86400), int64(3), int64(7), int64(2))
	}
	serve(0, a)
	serve(1, edge-a+int64(side)-1)
	vAssert(NumRedirected(c) == 0, "served while there is bandwidth")
	_, red := serve(2, 10)
	switch side {
	case 0:
		vAssert(!red, "served just below the limit")
		vCover("below")
	case 1:
		vAssert(red, "redirected exactly at the limit")
		vCover("at the edge")
	case 2:
		vAssert(red, "redirected above the limit")
		vCover("above")
	}
}
