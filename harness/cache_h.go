package PKG

import (
	"compress/gzip"
	"fmt"
	"os"

	"simulator/v2/cache/functions"
)

// Reference model of a simulated cache, driven through the Cache interface only.

const (
	vpLRU = iota
	vpLFU
	vpBig
	vpSmall
	vpRandom
	vpRandomLRU
	vpWeight
	vpInfinite
	vpDataset
)

const vDay = 86400

type vFile struct {
	name   int64
	size   float64
	in     bool    // resident, by the model
	seq    int     // order of arrival in the current rank
	rank   float64 // rank at the last insertion or update
	freq   int64   // requests served
	gone   bool    // evicted in the last eviction round
	listed bool    // in the dataset
}

type vCache struct {
	pol    int64
	prop   int64
	c      Cache
	max    float64
	files  []*vFile
	live   []*vFile // resident files, worst first when the policy has an order
	seq    int
	day    int64
	rand   bool
	wm     bool
	hi, lo float64
	rd     bool
	bw     float64

	nreq, hits, nadd, ndel, nred         int64
	read, readHit, readMiss              float64
	written, deleted, redSize            float64
	totWritten, totDeleted               float64 // never reset
	offWritten, offDeleted               float64 // totals at the last reset
	missGone                             int
	free                                 []float64
	anyEvict, anyHit, anyRedir, anyAgain bool
	low                                  vEff
	log                                  *vLog // events expected in the log, if there is one
}

// vEff: CPU efficiency bookkeeping
type vEff struct {
	region              string
	up, down, hit, miss float64
	nUp, nDown          int64
	nHit, nMiss         int64
	protocol            int64
	eff                 float64
}

// vEvent: a line expected in the event log.
type vEvent struct {
	what string
	tick int64
	size float64
	file *vFile
	freq int64
}

type vLog struct {
	events []vEvent
	probes []vEvent // lookups made while following a request, after it
	tick   int64
}

func (v *vCache) event(what string, f *vFile) {
	if v.log == nil {
		return
	}
	e := vEvent{what, v.log.tick, v.size(), f, -1}
	if f != nil && (what == "ADD" || what == "DELETE") {
		e.freq = f.freq
	}
	v.log.events = append(v.log.events, e)
}

// ask looks a file up while a request is followed.
func (v *vCache) ask(f *vFile) bool {
	r := Check(v.c, f.name)
	if v.log != nil {
		v.log.probes = append(v.log.probes, vEvent{vHitMiss(r), -1, -1, f, -1})
	}
	return r
}

func vHitMiss(hit bool) string {
	if hit {
		return "HIT"
	}
	return "MISS"
}

func (v *vCache) on(p int64) bool { return v.prop == p }

func vTypeOf(pol int64) string {
	switch pol {
	case vpLRU:
		return "lru"
	case vpLFU:
		return "lfu"
	case vpBig:
		return "sizeBig"
	case vpSmall:
		return "sizeSmall"
	case vpRandom:
		return "random"
	case vpRandomLRU:
		return "random_lru"
	case vpWeight:
		return "weightFunLRU"
	case vpInfinite:
		return "infinite"
	case vpDataset:
		return "lruDatasetVerifier"
	}
	panic("policy")
}

func vNames(n int) []*vFile {
	var fs []*vFile
	for i := 0; i < n; i++ {
		f := &vFile{name: vInt("name", -1<<50, 1<<50)}
		for _, o := range fs {
			vAssume(o.name != f.name)
		}
		fs = append(fs, f)
	}
	return fs
}

// vNewCache builds a cache of the policy in conf "policy" over nf files of arbitrary names and constant sizes.
func vNewCache(nf int) *vCache {
	v := &vCache{pol: vConf("policy"), prop: vConf("prop"), day: 20000 * vDay}
	v.files = vNames(nf)
	top := vConf("sizebits")
	for _, f := range v.files {
		f.size = float64(vInt("size", 0, 1<<top))
	}
	if k := vConf("max"); k > 0 {
		v.max = float64(k)
	} else {
		v.max = float64(vInt("max", 1, 1<<(top+2)))
	}
	if v.on(16) && v.pol == vpWeight || v.on(26) && !v.admits() { // whether an oversized file was declined or an empty round was made is not visible
		for _, f := range v.files {
			vAssume(f.size <= v.max)
		}
	}
	p := InitParameters{MaxNumDayDiff: 1000, DeltaDaysStep: 1000, RandSeed: 42}
	if vConf("watermarks") > 0 {
		v.wm = true
		p.Watermarks = true
		v.lo = vFloat("low", 0, 100, 1)
		v.hi = vFloat("high", 0, 100, 1)
		vAssume(v.lo < v.hi)
		p.HighWatermark, p.LowWatermark = v.hi, v.lo
	}
	if b := vConf("redirect"); b > 0 {
		v.rd = true
		p.RedirectReq = true
		v.bw = float64(b) / 1024 * 10800000
	}
	p.Log = v.on(26)
	par := WeightFunctionParameters{Alpha: 1, Beta: 1, Gamma: 1}
	if v.pol == vpWeight {
		p.FunctionTypeString = "FuncAdditive"
		p.WfType = functions.Additive
		p.WfParams = par
		p.CalcWeight = true
	}
	if v.pol == vpDataset {
		p.Dataset2TestPath = vWriteDataset(v.files)
	}
	v.c = Create(vTypeOf(v.pol), v.max, "M", "FuncAdditive", par)
	InitInstance(vTypeOf(v.pol), v.c, p)
	if v.rd {
		SetBandwidth(v.c, float64(vConf("redirect"))/1024)
	}
	return v
}

// vWriteDataset writes a dataset file that lists an arbitrary subset of the files.
func vWriteDataset(fs []*vFile) string {
	d := vTmpDir()
	path := d + "/dataset.json.gz"
	out, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	w := gzip.NewWriter(out)
	fmt.Fprint(w, "{\"selected_files\": [")
	n := 0
	for _, f := range fs {
		if vChoice("listed", 2) == 1 {
			f.listed = true
			if n > 0 {
				fmt.Fprint(w, ", ")
			}
			fmt.Fprintf(w, "%d", f.name)
			n++
		}
	}
	fmt.Fprint(w, "]}")
	w.Close()
	out.Close()
	return path
}

func (v *vCache) ordered() bool { return v.pol != vpRandom && v.pol != vpInfinite }

// admits: the policy stores every missing file that fits.
func (v *vCache) admits() bool {
	return v.pol == vpLRU || v.pol == vpLFU || v.pol == vpBig || v.pol == vpSmall || v.pol == vpInfinite
}

// worse: a is evicted before b.
func (v *vCache) worse(a, b *vFile) bool {
	switch v.pol {
	case vpLFU, vpSmall:
		if a.rank != b.rank {
			return a.rank < b.rank
		}
	case vpBig:
		if a.rank != b.rank {
			return a.rank > b.rank
		}
	}
	return a.seq < b.seq
}

// place puts the file at its position in the eviction order.
func (v *vCache) place(f *vFile) {
	v.unplace(f)
	f.in = true
	f.seq = v.seq
	v.seq++
	switch v.pol {
	case vpLFU:
		f.rank = float64(f.freq)
	case vpBig, vpSmall:
		f.rank = f.size
	}
	i := len(v.live)
	if v.ordered() {
		for i > 0 && v.worse(f, v.live[i-1]) {
			i--
		}
	}
	l := append([]*vFile{}, v.live[:i]...)
	l = append(l, f)
	v.live = append(l, v.live[i:]...)
}

func (v *vCache) unplace(f *vFile) {
	f.in = false
	for i, o := range v.live {
		if o == f {
			v.live = append(append([]*vFile{}, v.live[:i]...), v.live[i+1:]...)
			return
		}
	}
}

func (v *vCache) size() float64 {
	s := 0.0
	for _, f := range v.live {
		s += f.size
	}
	return s
}

func (v *vCache) round() {
	v.event("FREE", nil)
	for _, f := range v.files {
		f.gone = false
	}
}

func (v *vCache) evict(f *vFile) {
	v.unplace(f)
	f.gone = true
	v.event("DELETE", f)
	v.ndel++
	v.deleted += f.size
	v.totDeleted += f.size
	v.anyEvict = true
}

// lookup asks the cache and follows the effect of a lookup on the miss-after-delete counter.
func (v *vCache) lookup(f *vFile) bool {
	r := Check(v.c, f.name)
	v.event(vHitMiss(r), f)
	if !f.in && f.gone {
		v.missGone++
	}
	return r
}

// present asks the cache which of its files are resident.
func (v *vCache) present() []bool {
	r := make([]bool, len(v.files))
	for i, f := range v.files {
		r[i] = v.lookup(f)
	}
	return r
}

// makeRoom follows an eviction round for an exact amount.
func (v *vCache) makeRoom(amount float64) float64 {
	v.round()
	freed := 0.0
	if v.ordered() {
		for len(v.live) > 0 && freed < amount {
			w := v.live[0]
			freed += w.size
			v.evict(w)
		}
		return freed
	}
	// no order: the victims are those the cache says, they have to suffice and none may be superfluous
	l := append([]*vFile{}, v.live...)
	var out []*vFile
	for _, f := range l {
		if !v.ask(f) {
			out = append(out, f)
			freed += f.size
		}
	}
	if v.on(7) {
		vAssert(vOr(freed >= amount, len(out) == len(l)), "enough evicted")
		if len(out) > 0 {
			some := false
			for _, f := range out {
				some = vOr(some, freed-f.size < amount)
			}
			vAssert(some, "no superfluous eviction")
		}
	}
	for _, f := range out {
		v.evict(f)
		v.missGone++ // the lookup above
	}
	return freed
}

// makeRoomAbout follows an eviction round for a percentage, where the amount is subject to rounding.
func (v *vCache) makeRoomAbout(amount float64, pr int64) {
	const eps = 1.0 / 1024
	v.round()
	l := append([]*vFile{}, v.live...)
	freed, last, n := 0.0, 0.0, 0
	stop := false
	for _, f := range l {
		res := v.ask(f)
		if v.on(pr) && v.ordered() {
			vAssert(vImp(stop, res), "worst-first prefix evicted")
		}
		if res {
			stop = true
			continue
		}
		n++
		freed += f.size
		last = f.size
		v.evict(f)
		v.missGone++ // the lookup above
	}
	if v.on(pr) {
		vAssert(vOr(freed > amount-eps, n == len(l)), "enough evicted")
		if n > 0 && v.ordered() {
			vAssert(freed-last < amount+eps, "no superfluous eviction")
		}
	}
}

// request serves one request for f and follows it in the model.
func (v *vCache) request(f *vFile) (bool, bool) {
	protocol, eff := int64(1), 0.0
	if v.on(25) {
		protocol = int64(vChoice("local", 2))
		eff = vFloat("eff", 0, 100, 10)
	}
	wasIn := f.in
	sizeBefore := v.size()
	added, redirected := GetFile(v.c, f.name, f.size, protocol, eff, v.day, int64(3), int64(7), int64(2))
	if !wasIn && f.gone {
		v.missGone++
		v.anyAgain = true
	}
	if v.on(9) {
		vAssert(vImp(redirected, !wasIn), "only misses are redirected")
		if !wasIn && v.rd {
			use, lim := v.readMiss*100, 95*v.bw
			vAssert(vImp(use >= lim*(1+1e-9), redirected), "redirected when the bandwidth is used up")
			vAssert(vImp(use <= lim*(1-1e-9), !redirected), "served while there is bandwidth")
		}
		if !v.rd {
			vAssert(!redirected, "no redirection unless enabled")
		}
		vAssert(vImp(redirected, !added), "a redirected file is not stored")
	}
	v.event(vHitMiss(wasIn), f)
	if redirected {
		v.event("REDIRECT", f)
		v.nred++
		v.redSize += f.size
		v.anyRedir = true
		return added, redirected
	}
	v.nreq++
	f.freq++
	v.read += f.size
	if wasIn {
		v.hits++
		v.readHit += f.size
		v.anyHit = true
		if v.on(3) {
			vAssert(!added, "a hit stores nothing")
		}
		v.place(f)
	} else {
		v.readMiss += f.size
		if v.pol == vpInfinite {
			if v.on(3) || v.on(28) {
				vAssert(added, "the infinite cache stores every miss")
			}
			v.place(f)
			v.event("ADD", f)
			v.max += f.size
		} else if added || v.admits() || v.pol == vpDataset && f.listed {
			if sizeBefore+f.size > v.max {
				v.makeRoom(f.size)
			}
			fits := v.size()+f.size <= v.max
			if v.on(1) || v.on(3) || v.on(29) {
				vAssert(vImp(added, fits), "stored only if it fits")
			}
			if v.on(1) || v.on(29) {
				vAssert(vImp(fits, added), "stored if it fits")
			}
			if fits {
				v.place(f)
				v.event("ADD", f)
			}
		} else if f.size > v.max {
			// declined or too large: what was evicted, if anything, is the cache's choice
			v.makeRoomAny()
		}
		if v.on(29) {
			vAssert(vImp(!f.listed, !added), "a file outside the dataset is not stored")
		}
		if added {
			v.nadd++
			v.written += f.size
			v.totWritten += f.size
		}
	}
	v.effRequest(wasIn, protocol, eff)
	v.free = append(v.free, v.max-v.size())
	if v.log != nil {
		v.log.tick++
	}
	if v.wm {
		occ := v.size() / v.max * 100
		if occ >= v.hi {
			v.makeRoomAbout((occ-v.lo)/100*v.max, 10)
			vCover("over the high watermark")
			if v.on(10) {
				vAssert(vOr(v.c.Size()*100 <= v.lo*v.max+1.0/16, len(v.live) == 0), "low watermark reached")
			}
		}
	}
	return added, redirected
}

// makeRoomAny follows whatever prefix of the eviction order the cache evicted.
func (v *vCache) makeRoomAny() {
	l := append([]*vFile{}, v.live...)
	var out []*vFile
	for _, f := range l {
		if !v.ask(f) {
			out = append(out, f)
		}
	}
	if len(out) > 0 || len(l) == 0 {
		v.round()
	}
	for _, f := range out {
		v.evict(f)
		v.missGone++ // the lookup above
	}
}

func (v *vCache) effRequest(hit bool, protocol int64, eff float64) {
	e := &v.low
	cur := 0.0
	diff := func() float64 {
		switch e.region {
		case "it":
			return 19
		case "us":
			return 10
		case "":
			if e.nUp > 0 && e.nDown > 0 {
				d := e.up/float64(e.nUp) - e.down/float64(e.nDown)
				if d > 0 {
					return d
				}
			}
		}
		return 0
	}
	if eff != 0 {
		if protocol == 1 {
			e.up += eff
			e.nUp++
			cur = eff
		} else {
			e.down += eff
			e.nDown++
			cur = eff + diff()
		}
	}
	if hit {
		e.nHit++
		e.hit += cur
	} else {
		e.nMiss++
		if cur != 0 {
			e.miss += cur - diff()
		}
	}
}

func vNear(a, b float64) bool {
	d := a - b
	return vAnd(d < 1.0/65536, d > -1.0/65536)
}

type vNumFiles interface{ NumFiles() int }

// compare checks everything observable that belongs to the property under check.
func (v *vCache) compare() {
	c := v.c
	sz := v.size()
	if v.on(1) {
		vAssert(Size(c) >= 0, "size not negative")
		vAssert(Size(c) <= GetMaxSize(c), "size within the capacity")
		vAssert(GetMaxSize(c) == v.max, "capacity unchanged")
	}
	if v.on(2) {
		got := 0.0
		n := 0
		for _, f := range v.files {
			if v.lookup(f) {
				got += f.size
				n++
			}
		}
		vAssert(Size(c) == got, "size is the sum of the resident files")
		vAssert(c.(vNumFiles).NumFiles() == n, "number of files")
		vAssert(DataWritten(c)-DataDeleted(c)+v.offWritten-v.offDeleted == got, "size is written minus deleted")
	}
	if v.on(3) || v.on(7) || v.on(10) || v.on(28) || v.on(29) || v.on(9) {
		for _, f := range v.files {
			vAssert(v.lookup(f) == f.in, "lookup answers whether the file is resident")
		}
	}
	if v.on(7) || v.on(8) {
		vAssert(NumDeleted(c) == v.ndel, "deletions counted")
		vAssert(DataDeleted(c) == v.deleted, "deleted data counted")
	}
	if v.on(8) {
		vAssert(NumRequests(c) == v.nreq, "requests counted")
		vAssert(NumHits(c) == v.hits, "hits counted")
		vAssert(NumAdded(c) == v.nadd, "additions counted")
		vAssert(DataRead(c) == v.read, "data read")
		vAssert(DataReadOnHit(c) == v.readHit, "data read on hits")
		vAssert(DataReadOnMiss(c) == v.readMiss, "data read on misses")
		vAssert(DataWritten(c) == v.written, "data written")
		if v.nreq == 0 {
			vAssert(HitRate(c) == 0, "hit rate without requests")
		} else {
			vAssert(vNear(HitRate(c), 100*float64(v.hits)/float64(v.nreq)), "hit rate")
		}
	}
	if v.on(9) {
		vAssert(NumRedirected(c) == v.nred, "redirections counted")
		vAssert(RedirectedSize(c) == v.redSize, "redirected size")
		vAssert(NumRequests(c) == v.nreq, "redirected requests are not counted as served")
		vAssert(DataRead(c) == v.read, "redirected data is not counted as read")
		vAssert(DataReadOnMiss(c) == v.readMiss, "redirected data is not counted as read on miss")
		vAssert(Size(c) == sz, "redirected requests leave the contents")
	}
	if v.on(16) && vConf("read") == 0 {
		vAssert(GetTotDeletedFileMiss(c) == v.missGone, "misses after delete")
		v.missGone = 0
	}
	if v.on(28) {
		vAssert(Size(c) == sz, "size grows by the stored sizes")
		vAssert(NumDeleted(c) == 0, "nothing deleted")
		vAssert(DataDeleted(c) == 0, "no data deleted")
		vAssert(NumAdded(c) == v.nadd, "additions counted")
		vAssert(NumHits(c) == v.hits, "hits counted")
	}
	if v.on(29) {
		vAssert(Size(c) == sz, "size of the stored dataset files")
	}
	if v.on(25) {
		e := &v.low
		if e.nHit > 0 {
			vAssert(vNear(CPUHitEff(c), e.hit/float64(e.nHit)), "CPU efficiency of hits")
		}
		if e.nMiss > 0 {
			vAssert(vNear(CPUMissEff(c), e.miss/float64(e.nMiss)), "CPU efficiency of misses")
		}
		if e.nHit+e.nMiss > 0 {
			vAssert(vNear(CPUEff(c), (e.hit+e.miss)/float64(e.nHit+e.nMiss)), "CPU efficiency")
		}
		if e.nUp > 0 {
			vAssert(vNear(CPUEffUpperBound(c), e.up/float64(e.nUp)), "upper bound of the CPU efficiency")
		}
		if e.nDown > 0 {
			vAssert(vNear(CPUEffLowerBound(c), e.down/float64(e.nDown)), "lower bound of the CPU efficiency")
		}
	}
	if v.on(30) {
		n := len(v.free)
		if n > 0 {
			sum := 0.0
			for _, x := range v.free {
				sum += x
			}
			mean := sum / float64(n)
			vAssert(vNear(AvgFreeSpace(c), mean), "mean free space")
			if n > 1 {
				// compared on the squares
				sq := 0.0
				for _, x := range v.free {
					sq += (x - mean) * (x - mean)
				}
				sd := StdDevFreeSpace(c)
				vAssert(sd >= 0, "standard deviation not negative")
				dv := sd*sd - sq/float64(n-1)
				tol := (1 + sq) / 1048576
				vAssert(vAnd(dv < tol, dv > -tol), "standard deviation of the free space")
			}
		}
	}
}

func (v *vCache) clearStats() {
	v.nreq, v.hits, v.nadd, v.ndel, v.nred = 0, 0, 0, 0, 0
	v.read, v.readHit, v.readMiss, v.written, v.deleted, v.redSize = 0, 0, 0, 0, 0, 0
	v.free = nil
	v.low = vEff{region: v.low.region}
	v.offWritten, v.offDeleted = v.totWritten, v.totDeleted
}

// pick: a file requested before or the next new one.
func (v *vCache) pick(known *int) *vFile {
	n := *known
	if n < len(v.files) {
		n++
	}
	k := vChoice("file", n)
	if k == *known {
		*known = k + 1
	}
	return v.files[k]
}

// drain evicts the files one at a time: the order is that of the model.
func (v *vCache) drain() {
	for len(v.live) > 0 {
		want := 0.0
		gone := 0
		for gone < len(v.live) && want < 1 {
			want += v.live[gone].size
			gone++
		}
		out := append([]*vFile{}, v.live[:gone]...)
		got := v.c.Free(1, false)
		vAssert(got == want, "freed the size of the worst files")
		v.makeRoom(1)
		for _, f := range out {
			vAssert(!v.lookup(f), "the worst file is evicted")
		}
		for _, f := range v.live {
			vAssert(v.lookup(f), "only the worst files are evicted")
		}
	}
	vAssert(Size(v.c) == 0, "empty at the end")
}

// vhCacheRun: an arbitrary history of requests and other operations.
func vhCacheRun() {
	v := vNewCache(int(vConf("files")))
	known := 0
	ops := int(vConf("ops"))
	var menu []string
	menu = append(menu, "request")
	m := vConf("menu")
	for i, n := range []string{"free", "percent", "clearstats", "clearfiles", "readcount", "clear"} {
		if m&(1<<uint(i)) != 0 {
			menu = append(menu, n)
		}
	}
	if v.on(25) {
		v.low.region = vConfS("region")
		SetRegion(v.c, v.low.region)
	}
	for i := 0; i < ops; i++ {
		op := menu[0]
		if i > 0 && len(menu) > 1 {
			op = menu[vChoice("op", len(menu))]
		}
		switch op {
		case "request":
			v.request(v.pick(&known))
		case "free":
			a := float64(vInt("amount", -4, 1<<(vConf("sizebits")+1)))
			if v.on(16) { // a round that asks for nothing may or may not count as one
				vAssume(a > 0)
			}
			got := v.c.Free(a, false)
			if a > 0 {
				want := v.makeRoom(a)
				if v.on(2) || v.on(7) {
					vAssert(got == want, "freed amount returned")
				}
				vCover("free")
			} else if v.on(2) || v.on(7) {
				vAssert(got == 0, "nothing freed for nothing")
			}
		case "percent":
			a := vFloat("percent", -1, 100, 1)
			if v.on(16) { // a round that asks for nothing may or may not count as one
				vAssume(a > 0)
			}
			before := v.size()
			got := v.c.Free(a, true)
			if a > 0 {
				v.makeRoomAbout(a/100*v.max, 7)
				vCover("percent")
			}
			if v.on(2) || v.on(7) {
				vAssert(got == before-v.size(), "freed percentage returned")
			}
		case "clearstats":
			ClearStats(v.c)
			v.clearStats()
		case "clearfiles":
			ClearFiles(v.c)
			for len(v.live) > 0 {
				f := v.live[0]
				v.unplace(f)
				v.totDeleted += f.size
				v.offDeleted += f.size
			}
		case "readcount":
			vAssert(GetTotDeletedFileMiss(v.c) == v.missGone, "misses after delete")
			v.missGone = 0
		}
		v.compare()
	}
	vObserve("size", Size(v.c))
	vObserve("hits", NumHits(v.c))
	vObserve("deleted", NumDeleted(v.c))
	if v.anyEvict {
		vCover("eviction")
	}
	if v.anyHit {
		vCover("hit")
	}
	if v.anyRedir {
		vCover("redirect")
	}
	if v.anyAgain {
		vCover("miss after delete")
	}
	if v.on(7) && v.ordered() {
		v.drain()
	}
	if v.on(16) && vConf("read") == 1 {
		vAssert(GetTotDeletedFileMiss(v.c) == v.missGone, "misses after delete")
	}
}
