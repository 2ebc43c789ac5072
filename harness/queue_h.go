package PKG

import "simulator/v2/cache/files"

// One file of the queue under test together with what the specification knows of it.
type vItem struct {
	st  *files.Stats
	seq int // order of arrival in the current rank
	in  bool
	key float64 // key at the last insertion or update (float ranks)
	frq int64   // key at the last insertion or update (LFU)
}

type vQ struct {
	kind  int64 // 0 lru, 1 lfu, 2 big, 3 small, 4 weight
	q     Queue
	items []*vItem
	live  []*vItem // worst first, by the specification
	seq   int
	keyHi int64
}

func vNewQ(kind int64) *vQ {
	v := &vQ{kind: kind}
	switch kind {
	case 0:
		v.q = &LRU{}
	case 1:
		v.q = &LFU{}
	case 2:
		v.q = &SizeBig{}
	case 3:
		v.q = &SizeSmall{}
	case 4:
		v.q = &Weighted{}
	}
	Init(v.q)
	return v
}

// newKey gives the file an arbitrary key for the rank of the queue and arbitrary other attributes.
func (v *vQ) newKey(it *vItem) {
	if k := vConf("keys"); k > 0 { // few ranks, many files in each
		n := vInt("rank", 1, k)
		it.st.Frequency = n
		it.st.Size = float64(n)
		it.st.Weight = float64(n)
		return
	}
	switch v.kind {
	case 1:
		it.st.Frequency = vInt("freq", 0, 1<<40)
	case 2, 3:
		it.st.Size = float64(vInt("size", 0, 1<<40))
	case 4:
		it.st.Weight = vFloat("weight", -1048576, 1048576, 10)
	}
}

func (v *vQ) remember(it *vItem) {
	switch v.kind {
	case 1:
		it.frq = it.st.Frequency
	case 2, 3:
		it.key = it.st.Size
	case 4:
		it.key = it.st.Weight
	}
	it.seq = v.seq
	v.seq++
}

func (v *vQ) newItem() *vItem {
	it := &vItem{st: &files.Stats{Filename: vInt("name", -1<<50, 1<<50), Size: 1}}
	for _, o := range v.items {
		vAssume(o.st.Filename != it.st.Filename)
	}
	v.items = append(v.items, it)
	return it
}

func (v *vQ) insert(it *vItem) {
	v.newKey(it)
	v.remember(it)
	Insert(v.q, it.st)
	it.in = true
	v.live = append(v.live, it)
}

// worse: a is listed before b
func (v *vQ) worse(a, b *vItem) bool {
	early := a.seq < b.seq
	switch v.kind {
	case 1:
		return vOr(a.frq < b.frq, vAnd(a.frq == b.frq, early))
	case 2:
		return vOr(a.key > b.key, vAnd(a.key == b.key, early))
	case 3, 4:
		return vOr(a.key < b.key, vAnd(a.key == b.key, early))
	}
	return early
}

// check compares the listings of the queue with the specification.
func (v *vQ) check() {
	l := GetFromWorst(v.q)
	n := 0
	for _, it := range v.items {
		if it.in {
			n++
		}
	}
	vAssert(len(l) == n, "listing has every file once")
	vAssert(Len(v.q) == n, "number of files")
	order := make([]*vItem, 0, n)
	for _, st := range l {
		var f *vItem
		for _, it := range v.items {
			if it.st == st {
				f = it
			}
		}
		vAssert(f != nil, "listing has no unknown file")
		vAssert(f.in, "listing has no removed file")
		for _, o := range order {
			vAssert(o != f, "listing has no file twice")
		}
		order = append(order, f)
	}
	for i := 1; i < len(order); i++ {
		vAssert(v.worse(order[i-1], order[i]), "worst-first order")
	}
	for _, it := range v.items {
		vAssert(Check(v.q, it.st.Filename) == it.in, "membership")
		if it.in {
			vAssert(GetFileStats(v.q, it.st.Filename) == it.st, "statistics of a member")
		}
	}
	b := Get(v.q)
	vAssert(len(b) == n, "best-first listing has every file once")
	for i := range b {
		vAssert(b[i] == order[n-1-i].st, "best-first listing is the reverse of worst-first")
	}
	v.live = order
}

func (v *vQ) names(l []*vItem) []int64 {
	r := make([]int64, 0, len(l))
	for _, it := range l {
		r = append(r, it.st.Filename)
	}
	return r
}

func (v *vQ) drop(it *vItem) {
	it.in = false
	for i, o := range v.live {
		if o == it {
			v.live = append(append([]*vItem{}, v.live[:i]...), v.live[i+1:]...)
			return
		}
	}
}

// step performs one arbitrary operation.
func (v *vQ) step() {
	n := len(v.live)
	kinds := 1
	if n > 0 {
		kinds = 4
	}
	if n > 1 {
		kinds = 5
	}
	switch vChoice("op", kinds) {
	case 0: // insert: a new file or one that was removed before
		var gone []*vItem
		for _, it := range v.items {
			if !it.in {
				gone = append(gone, it)
			}
		}
		if len(gone) > 0 && vChoice("again", 2) == 1 {
			v.insert(gone[vChoice("which", len(gone))])
		} else {
			v.insert(v.newItem())
		}
		vCover("insert")
	case 1:
		it := v.live[vChoice("which", n)]
		v.newKey(it)
		v.remember(it)
		Update(v.q, it.st)
		vCover("update")
	case 2:
		it := v.live[vChoice("which", n)]
		Remove(v.q, []int64{it.st.Filename})
		v.drop(it)
		vCover("remove")
	case 3:
		k := vChoice("count", n) + 1
		w := append([]*vItem{}, v.live[:k]...)
		RemoveWorst(v.q, v.names(w))
		for _, it := range w {
			v.drop(it)
		}
		vCover("remove worst")
	case 4: // two files in any order
		a := vChoice("which", n)
		b := vChoice("which2", n-1)
		if b >= a {
			b++
		}
		x, y := v.live[a], v.live[b]
		Remove(v.q, []int64{x.st.Filename, y.st.Filename})
		v.drop(x)
		v.drop(y)
		vCover("remove two")
	}
}

// vhQueueOps: arbitrary operations on a queue that starts with some files.
func vhQueueOps() {
	v := vNewQ(vConf("kind"))
	n0 := int(vConf("start"))
	for i := 0; i < n0; i++ {
		v.insert(v.newItem())
	}
	v.check()
	ops := int(vConf("ops"))
	for i := 0; i < ops; i++ {
		v.step()
		v.check()
	}
	for _, it := range v.live {
		vObserve("order", it.st.Filename)
	}
}

// vhQueueWorst: the worst files up to a size are the shortest sufficient prefix.
func vhQueueWorst() {
	v := vNewQ(vConf("kind"))
	n0 := int(vConf("start"))
	for i := 0; i < n0; i++ {
		it := v.newItem()
		if v.kind != 2 && v.kind != 3 {
			it.st.Size = float64(vInt("fsize", 1, 1<<40))
		}
		v.insert(it)
	}
	v.check()
	ops := int(vConf("ops"))
	for i := 0; i < ops; i++ {
		v.step()
		v.check()
	}
	tot := float64(vInt("amount", 1, 1<<45))
	l := GetWorstFilesUp2Size(v.q, tot)
	sum := 0.0
	for i, st := range l {
		vAssert(i < len(v.live), "no more files than there are")
		vAssert(st == v.live[i].st, "prefix of the worst-first order")
		vAssert(sum < tot, "shortest sufficient prefix")
		sum += st.Size
	}
	vAssert(vOr(sum >= tot, len(l) == len(v.live)), "enough or everything")
	if len(l) > 0 && len(l) < len(v.live) {
		vCover("proper prefix")
	}
	vObserve("count", len(l))
}
