package PKG

// Harnesses for dumping and loading a cache.

// vDumpLoad dumps a and loads it into b, in memory or through the dump file.
func vDumpLoad(a, b Cache, viaFile bool, all bool, args ...interface{}) {
	if viaFile {
		path := vTmpDir() + "/dump.json.gz"
		Dump(a, path, all)
		Loads(b, Load(b, path), args...)
		return
	}
	Loads(b, a.Dumps(all), args...)
}

// vhDump: any history, a dump loaded into a fresh cache, then any history served by both.
func vhDump() {
	v := vNewPlan()
	a := v.fresh()
	pre := int(vConf("before"))
	for i := int64(0); i < vConf("ring"); i++ { // the first file has been requested this often, on consecutive days
		v.known = 1
		v.day++
		vServe(a, v.files[0].name, v.files[0].size, v.day*86400)
	}
	n := vChoice("before", pre+1)
	for i := 0; i < n; i++ {
		f := v.pick()
		if vServe(a, f.name, f.size, v.pass()).added {
			vCover("stored before")
		}
	}
	b := v.fresh()
	vDumpLoad(a, b, vConf("file") > 0, true)
	ClearStats(a)
	v.sameContents(a, b, "loaded")
	vSameCounters(a, b, "loaded")
	vAssert(GetMaxSize(a) == GetMaxSize(b), "loaded: capacity")
	if v.pol == vpRandom || v.pol == vpRandomLRU { // the random source is not part of the dump
		v.sameOrder(a, b, "loaded")
		return
	}
	post := int(vConf("after"))
	n = vChoice("after", post+1)
	for i := 0; i < n; i++ {
		f := v.pick()
		d := v.pass()
		x, y := vServe(a, f.name, f.size, d), vServe(b, f.name, f.size, d)
		vSameReply(x, y, "after load")
		vAssert(x.delta == y.delta, "after load: gap since the last request")
		vSameCounters(a, b, "after load")
		vAssert(GetMaxSize(a) == GetMaxSize(b), "after load: capacity")
		vAssert(vNear(AvgFreeSpace(a), AvgFreeSpace(b)), "after load: free space")
		v.sameContents(a, b, "after load")
		if x.hit {
			vCover("hit after")
		} else {
			vCover("miss after")
		}
	}
	vObserve("size", Size(a))
	v.sameOrder(a, b, "after load")
}
