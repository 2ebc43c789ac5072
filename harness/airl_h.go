package PKG

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"
)

// Harnesses for the learned cache.

var vAgentLog bool // learned caches keep an event log

type vAct [7]int // store, not store, delete all, half, quarter, one, none

type vAgents struct {
	c           Cache
	fresh       func() Cache
	files       []*vFile
	live        []*vFile // residents, least recently used first
	max         float64
	add, evc    bool
	mode        string
	known       int
	day         int64
	cat         map[*vFile]int // category of a resident, by its request count
	freq        map[*vFile]int64
	buckets     []int64
	nreq, hits  int64
	nadd, ndel  int64
	wr, del, rd float64
}

func vWriteText(name, text string) string {
	path := vTmpDir() + "/" + name
	out, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	fmt.Fprint(out, text)
	out.Close()
	return path
}

// vAgentParams gives the configuration of a learned cache: kind 0 addition agent with LRU eviction (SCDL),
// 1 eviction agent alone, 2 both, 3 addition agent with LRU eviction (SCDL2).
func vAgentParams(kind, mode int64) (InitParameters, string) {
	p := InitParameters{Log: vAgentLog, MaxNumDayDiff: 1000, DeltaDaysStep: 1000, RandSeed: 42, AIRLType: "SCDL2", EvictionAgentType: "NONE", AIRLEvictionK: vConf("k")}
	p.AIRLAdditionEpsilonStart, p.AIRLEvictionEpsilonStart = float64(vConf("epsilon"))/100, float64(vConf("epsilon"))/100
	if kind == 0 {
		p.AIRLType = "SCDL"
	}
	if kind != 1 {
		occ := ""
		if vConf("occupancy") > 0 {
			occ = `, "percOcc": {"type": "float", "buckets": [50.0], "openRight": true}`
		}
		p.AIRLAdditionFeatureMap = vWriteText("add.json", `{"numReq": {"type": "int", "buckets": [1], "openRight": true}`+occ+`}`)
	}
	m := "none"
	if kind == 1 || kind == 2 {
		m = []string{"onK", "onFree", "onDayEnd"}[mode]
		p.EvictionAgentType = m
		n := ""
		if vConf("cats") > 1 {
			n = `, "buckets": [1], "openRight": true`
		} else {
			n = `, "buckets": [], "openRight": true`
		}
		occ := ""
		if vConf("occupancy") > 0 {
			occ = `, "catPercOcc": {"type": "float", "buckets": [50.0], "openRight": true}`
		}
		p.AIRLEvictionFeatureMap = vWriteText("evict.json", `{"catNumReq": {"type": "int"`+n+`, "fileFeature": true}, "catSize": {"type": "float", "buckets": [], "openRight": true, "fileFeature": true}, "catDeltaLastRequest": {"type": "int", "buckets": [], "openRight": true, "fileFeature": true}`+occ+`}`)
	}
	return p, m
}

func vNewAgents() *vAgents {
	kind := vConf("agents")
	v := &vAgents{day: 20000, add: kind != 1, evc: kind == 1 || kind == 2, cat: map[*vFile]int{}, freq: map[*vFile]int64{}}
	v.files = vNames(int(vConf("files")))
	top := vConf("sizebits")
	for _, f := range v.files {
		f.size = float64(vInt("size", 0, 1<<top))
	}
	if k := vConf("max"); k > 0 {
		v.max = float64(k)
	} else {
		v.max = float64(vInt("max", 1, 1<<(top+2)))
	}
	p, m := vAgentParams(kind, vConf("mode"))
	v.mode = m
	if vConf("cats") > 1 {
		v.buckets = []int64{1}
	}
	v.fresh = func() Cache {
		c := Create("aiRL", v.max, "M", "", WeightFunctionParameters{})
		InitInstance("aiRL", c, p)
		SetBandwidth(c, 1.0/1024)
		return c
	}
	v.c = v.fresh()
	return v
}

func (v *vAgents) actions() vAct {
	var a vAct
	for i, s := range strings.Split(ExtraOutput(v.c, "actionStats"), ",") {
		a[i], _ = strconv.Atoi(s)
	}
	return a
}

func (v *vAgents) calls() (int, int) {
	s := strings.Split(ExtraOutput(v.c, "evictionStats"), ",")
	a, _ := strconv.Atoi(s[0])
	b, _ := strconv.Atoi(s[1])
	return a, b
}

func (v *vAgents) place(f *vFile) {
	v.drop(f)
	v.live = append(v.live, f)
	c := 0
	for _, b := range v.buckets {
		if v.freq[f] > b {
			c++
		}
	}
	v.cat[f] = c
}

func (v *vAgents) drop(f *vFile) {
	for i, o := range v.live {
		if o == f {
			v.live = append(append([]*vFile{}, v.live[:i]...), v.live[i+1:]...)
			return
		}
	}
}

func (v *vAgents) resident(f *vFile) bool {
	for _, o := range v.live {
		if o == f {
			return true
		}
	}
	return false
}

func (v *vAgents) size() float64 {
	s := 0.0
	for _, f := range v.live {
		s += f.size
	}
	return s
}

// vExplain: whether `calls` eviction calls with the given decisions turn the categories `have` into `left`.
func vExplain(have, left []int, acts vAct, calls int) bool {
	total := 0
	for _, n := range acts[2:] {
		total += n
	}
	if calls == 0 {
		for i := range have {
			if have[i] != left[i] {
				return false
			}
		}
		return total == 0
	}
	var assign func(i int, cur []int, a vAct) bool
	assign = func(i int, cur []int, a vAct) bool {
		if i == len(cur) {
			return vExplain(cur, left, a, calls-1)
		}
		if cur[i] == 0 {
			return assign(i+1, cur, a)
		}
		for k := 2; k < 7; k++ {
			if a[k] == 0 {
				continue
			}
			b := a
			b[k]--
			n := 0
			switch k {
			case 2:
				n = cur[i]
			case 3:
				n = cur[i] / 2
			case 4:
				n = cur[i] / 4
			case 5:
				n = 1
			}
			if n == 0 && k < 6 {
				n = 1
			}
			next := append([]int{}, cur...)
			next[i] -= n
			if assign(i+1, next, b) {
				return true
			}
		}
		return false
	}
	return assign(0, have, acts)
}

// evicted follows what the eviction agent removed between two observations.
func (v *vAgents) evicted(before vAct, callsBefore int, what string) {
	after := v.actions()
	callsAfter, _ := v.calls()
	var d vAct
	sum := 0
	for i := range d {
		d[i] = after[i] - before[i]
		if i >= 2 {
			sum += d[i]
		}
	}
	n := len(v.buckets) + 1
	have, left := make([]int, n), make([]int, n)
	for _, f := range v.live {
		have[v.cat[f]]++
	}
	for _, f := range append([]*vFile{}, v.live...) {
		if !Check(v.c, f.name) {
			v.drop(f)
			v.ndel++
			v.del += f.size
			vCover("eviction")
			continue
		}
		left[v.cat[f]]++
	}
	vAssert(vExplain(have, left, d, callsAfter-callsBefore), what+": files removed as decided, one decision per category and call")
	if sum > 0 {
		vCover("decision")
	}
}

func (v *vAgents) compare(what string) {
	c := v.c
	n := 0
	for _, f := range v.files {
		r := Check(c, f.name)
		vAssert(r == v.resident(f), what+": lookup answers whether the file is resident")
		if r {
			n++
		}
	}
	vAssert(c.(vNumFiles).NumFiles() == n, what+": number of files")
	vAssert(Size(c) == v.size(), what+": size is the sum of the resident files")
	vAssert(Size(c) <= v.max, what+": size within the capacity")
	vAssert(NumDeleted(c) == v.ndel, what+": deletions counted")
	vAssert(DataDeleted(c) == v.del, what+": deleted data counted")
	vAssert(NumRequests(c) == v.nreq, what+": requests counted")
	vAssert(NumHits(c) == v.hits, what+": hits counted")
	vAssert(NumAdded(c) == v.nadd, what+": additions counted")
	vAssert(DataWritten(c) == v.wr, what+": data written")
	vAssert(DataRead(c) == v.rd, what+": data read")
}

func (v *vAgents) request(f *vFile) {
	c := v.c
	req := Request{Filename: f.name, Size: f.size, Day: v.day * 86400, DayTime: time.Unix(v.day*86400, 0), SiteName: 3, UserID: 7, FileType: 2, Protocol: 1, CPUEff: 50}
	hit := Check(c, f.name)
	vAssert(hit == v.resident(f), "lookup answers whether the file is resident")
	st, h := BeforeRequest(c, &req, hit)
	v.freq[f]++
	vAssert(st.Frequency == v.freq[f], "request count")
	a0 := v.actions()
	c0, f0 := v.calls()
	full := v.size()+f.size > v.max
	added := UpdatePolicy(c, &req, st, h)
	a1 := v.actions()
	c1, f1 := v.calls()
	store, skip := a1[0]-a0[0], a1[1]-a0[1]
	v.nreq++
	v.rd += f.size
	if hit {
		vAssert(!added, "a hit stores nothing")
		vAssert(a1 == a0, "a hit decides nothing")
		vAssert(c1 == c0, "a hit calls no eviction")
		v.hits++
		v.place(f)
		vCover("hit")
	} else {
		if v.add {
			vAssert(store+skip == 1, "one decision per miss")
		} else {
			vAssert(store+skip == 0, "no decision without an addition agent")
			store = 1
		}
		if store == 0 {
			vAssert(!added, "a file is not stored when that was decided")
			vAssert(c1 == c0, "no eviction for a file that is not stored")
			for _, o := range v.live {
				vAssert(Check(c, o.name), "no eviction for a file that is not stored")
			}
			vCover("skipped")
		} else {
			if v.evc {
				if !full {
					vAssert(c1 == c0, "no eviction while there is space")
				} else {
					vCover("full")
				}
				vAssert(vOr(f1 == f0, full), "forced calls only without space")
				v.evicted(a0, c0, "making room")
			} else if full {
				freed := 0.0
				for len(v.live) > 0 && freed < f.size {
					w := v.live[0]
					freed += w.size
					v.drop(w)
					v.ndel++
					v.del += w.size
					vCover("eviction")
				}
			}
			fits := v.size()+f.size <= v.max
			vAssert(added == fits, "stored exactly when it fits")
			if added {
				v.place(f)
				v.nadd++
				v.wr += f.size
				vCover("stored")
			}
		}
	}
	a0 = v.actions()
	c0, _ = v.calls()
	AfterRequest(c, &req, st, h, added)
	if v.evc {
		v.evicted(a0, c0, "after the request")
		if v.mode != "onK" {
			c1, _ = v.calls()
			vAssert(c1 == c0, "no eviction call after a request")
		}
	}
	CheckWatermark(c)
	v.compare("after request")
}

// vhAgents: any history of requests and other operations on a learned cache.
func vhAgents() {
	v := vNewAgents()
	ops := int(vConf("ops"))
	var menu []string
	menu = append(menu, "request")
	m := vConf("menu")
	for i, n := range []string{"clearstats", "clearfiles", "clear", "free"} {
		if m&(1<<uint(i)) != 0 {
			menu = append(menu, n)
		}
	}
	for i := 0; i < ops; i++ {
		op := menu[0]
		if i > 0 && len(menu) > 1 {
			op = menu[vChoice("op", len(menu))]
		}
		switch op {
		case "request":
			n := v.known
			if n < len(v.files) {
				n++
			}
			k := vChoice("file", n)
			if k == v.known {
				v.known++
			}
			v.request(v.files[k])
			continue
		case "clearstats":
			ClearStats(v.c)
			v.nreq, v.hits, v.nadd, v.ndel, v.wr, v.rd, v.del = 0, 0, 0, 0, 0, 0, 0
			c1, _ := v.calls()
			if v.mode == "onDayEnd" {
				vAssert(c1 == 1, "the eviction agent is called at the end of the day")
				vCover("end of day")
			} else {
				vAssert(c1 == 0, "no eviction call for other modes at the end of the day")
			}
			v.evicted(vAct{}, 0, "end of day")
		case "clearfiles":
			ClearFiles(v.c)
			v.live = nil
		case "clear":
			Clear(v.c)
			v.live = nil
			v.freq = map[*vFile]int64{}
			v.nreq, v.hits, v.nadd, v.ndel, v.wr, v.rd, v.del = 0, 0, 0, 0, 0, 0, 0
		case "free":
			got := v.c.Free(float64(vInt("amount", 1, 1<<vConf("sizebits"))), false)
			sum := 0.0
			for _, f := range append([]*vFile{}, v.live...) {
				if !Check(v.c, f.name) {
					v.drop(f)
					v.ndel++
					v.del += f.size
					sum += f.size
				}
			}
			vAssert(got == sum, "freed amount returned")
		}
		v.compare(op)
	}
	vObserve("size", Size(v.c))
}
