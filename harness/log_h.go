package PKG

import (
	"compress/gzip"
	"encoding/csv"
	"os"
	"strconv"
)

// Harness for the event log: the expected lines follow from the model of cache_h.go.

// flush appends the lookups made while the last request was followed.
func (v *vCache) flush() {
	for _, e := range v.log.probes {
		e.tick, e.size = v.log.tick, v.size()
		v.log.events = append(v.log.events, e)
	}
	v.log.probes = nil
}

func vLogNum(cell string, want float64) bool {
	x, err := strconv.ParseFloat(cell, 64)
	if err != nil {
		return false
	}
	return vAnd(x-want <= 0.00501, want-x <= 0.00501)
}

func vLogInt(cell string, want int64) bool {
	x, err := strconv.ParseInt(cell, 10, 64)
	return err == nil && x == want
}

// vhLog: any history of requests, lookups and freeing rounds on a cache with a log, then the end of the cache.
func vhLog() {
	if err := os.Chdir(vTmpDir()); err != nil {
		panic(err)
	}
	v := vNewCache(int(vConf("files")))
	v.log = &vLog{}
	known := 0
	ops := int(vConf("ops"))
	for i := 0; i < ops; i++ {
		op := 0
		if known > 0 && vConf("menu") > 0 {
			op = vChoice("op", 3)
		}
		switch op {
		case 0:
			f := v.pick(&known)
			v.request(f)
			v.flush()
		case 1:
			v.lookup(v.files[vChoice("looked up", known)])
			vCover("lookup")
		case 2:
			amount := float64(vInt("amount", -5, 1<<(vConf("sizebits")+2)))
			v.c.Free(amount, false)
			if amount > 0 {
				v.makeRoom(amount)
				v.flush()
				vCover("free")
			}
		}
	}
	for i := int64(0); i < vConf("tail"); i++ { // more than the buffer of the log holds
		v.lookup(v.files[0])
	}
	vAssert(Terminate(v.c) == nil, "terminated")

	in, err := os.Open("simulationLogFile.csv.gz")
	vAssert(err == nil, "log file written")
	zr, err := gzip.NewReader(in)
	vAssert(err == nil, "log file is compressed")
	rows, err := csv.NewReader(zr).ReadAll()
	in.Close()
	vAssert(err == nil && len(rows) > 0, "log file complete")
	col := map[string]int{}
	for i, name := range rows[0] {
		col[name] = i
	}
	rows = rows[1:]
	vAssert(len(rows) == len(v.log.events), "one line per event")
	for i := 0; i < len(rows); {
		e := v.log.events[i]
		if e.what == "DELETE" && !v.ordered() { // in any order
			n := i
			size := 0.0
			if i > 0 {
				size = v.log.events[i-1].size
			}
			vCover("deleted")
			for n < len(rows) && v.log.events[n].what == "DELETE" {
				n++
			}
			var done []bool
			for k := i; k < n; k++ {
				done = append(done, false)
			}
			for k := i; k < n; k++ {
				vAssert(rows[k][col["action or event"]] == "DELETE", "kind of event")
				vAssert(vLogInt(rows[k][col["tick"]], e.tick), "request number of an event")
				found := false
				for j := i; j < n; j++ {
					g := v.log.events[j].file
					if !done[j-i] && vLogInt(rows[k][col["filename"]], g.name) {
						done[j-i] = true
						found = true
						size -= g.size
						vAssert(vLogNum(rows[k][col["size"]], g.size), "size of the file of an event")
						break
					}
				}
				vAssert(found, "file of an event")
				vAssert(vLogNum(rows[k][col["cache size"]], size), "occupied space after an event")
			}
			i = n
			continue
		}
		r := rows[i]
		i++
		vAssert(r[col["action or event"]] == e.what, "kind of event")
		vAssert(vLogInt(r[col["tick"]], e.tick), "request number of an event")
		vAssert(vLogNum(r[col["cache size"]], e.size), "occupied space after an event")
		if v.pol != vpInfinite {
			vAssert(vLogNum(r[col["cache capacity"]], e.size/v.max*100), "capacity after an event")
		}
		if e.file != nil {
			vAssert(vLogInt(r[col["filename"]], e.file.name), "file of an event")
			if e.what != "HIT" && e.what != "MISS" {
				vAssert(vLogNum(r[col["size"]], e.file.size), "size of the file of an event")
			}
			if e.freq >= 0 && v.pol != vpInfinite {
				vAssert(vLogInt(r[col["num req"]], e.freq), "requests of the file of an event")
			}
		}
		switch e.what {
		case "DELETE":
			vCover("deleted")
		case "ADD":
			vCover("added")
		case "REDIRECT":
			vCover("redirected")
		}
	}
	vObserve("lines", len(rows))
}
