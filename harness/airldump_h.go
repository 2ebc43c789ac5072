package PKG

// Dumps of a learned cache.

// vhDumpAgents: any history on a learned cache, a dump loaded into a fresh one, then any history on the loaded one.
func vhDumpAgents() {
	v := vNewAgents()
	request := func() {
		n := v.known
		if n < len(v.files) {
			n++
		}
		k := vChoice("file", n)
		if k == v.known {
			v.known++
		}
		v.request(v.files[k])
	}
	for i := int(vConf("before")); i > 0; i-- {
		request()
	}
	a := v.c
	t0, e0 := ExtraOutput(a, "additionQTable"), ExtraOutput(a, "evictionQTable")
	v.c = v.fresh()
	all := vConf("agentsonly") == 0
	eps := float64(vConf("epsilon")) / 100
	vDumpLoad(a, v.c, vConf("file") > 0, all, eps, 0.0)
	vAssert(ExtraOutput(a, "additionQTable") == t0, "dumping leaves the action values")
	vAssert(ExtraOutput(v.c, "additionQTable") == t0, "loaded: values of the addition agent")
	vAssert(ExtraOutput(v.c, "evictionQTable") == e0, "loaded: values of the eviction agent")
	v.nreq, v.hits, v.nadd, v.ndel, v.wr, v.rd, v.del = 0, 0, 0, 0, 0, 0, 0
	if !all {
		v.live = nil
		v.freq = map[*vFile]int64{}
	}
	v.compare("loaded")
	for i := int(vConf("after")); i > 0; i-- {
		request()
	}
	vObserve("size", Size(v.c))
}
