package PKG

import (
	"compress/gzip"
	"encoding/csv"
	"os"
	"strconv"
)

// Harness for the event log of a learned cache: the decisions are its own, the lines have to tell them.

// vhLogAgents: any history of requests and ends of a day on a learned cache with a log; the lines are followed from the start.
func vhLogAgents() {
	if err := os.Chdir(vTmpDir()); err != nil {
		panic(err)
	}
	vAgentLog = true
	v := vNewAgents()
	vAgentLog = false
	byName := map[int64]*vFile{}
	for _, f := range v.files {
		byName[f.name] = f
	}
	var asked []*vFile
	var skips, stores, calls, forced, added, deleted int64
	count := func() {
		a := v.actions()
		stores += int64(a[0])
		skips += int64(a[1])
		c, f := v.calls()
		calls += int64(c)
		forced += int64(f)
		added += NumAdded(v.c)
		deleted += NumDeleted(v.c)
	}
	days := 0
	for i := 0; i < int(vConf("ops")); i++ {
		if i > 0 && vConf("menu") > 0 && vBool("end of day") {
			count()
			ClearStats(v.c)
			days++
			if v.mode == "onDayEnd" {
				vCover("end of day")
			}
			continue
		}
		n := v.known
		if n < len(v.files) {
			n++
		}
		k := vChoice("file", n)
		if k == v.known {
			v.known++
		}
		f := v.files[k]
		asked = append(asked, f)
		GetFile(v.c, f.name, f.size, int64(1), 50.0, v.day*86400, int64(3), int64(7), int64(2))
	}
	count()
	var left []bool
	nreq := len(asked)
	for _, f := range v.files {
		left = append(left, Check(v.c, f.name))
		asked = append(asked, f)
	}
	vAssert(Terminate(v.c) == nil, "terminated")

	in, err := os.Open("simulationLogFile.csv.gz")
	vAssert(err == nil, "log file written")
	zr, err := gzip.NewReader(in)
	vAssert(err == nil, "log file is compressed")
	rows, err := csv.NewReader(zr).ReadAll()
	in.Close()
	vAssert(err == nil && len(rows) > 0, "log file complete")
	col := map[string]int{}
	for i, name := range rows[0] {
		col[name] = i
	}
	live := map[*vFile]bool{}
	seen := 0
	lines := map[string]int64{}
	for _, r := range rows[1:] {
		what := r[col["action or event"]]
		lines[what]++
		var f *vFile
		for _, o := range v.files {
			if vLogInt(r[col["filename"]], o.name) {
				f = o
			}
		}
		switch what {
		case "HIT", "MISS":
			vAssert(seen < len(asked) && f == asked[seen], "a line per lookup, in order")
			vAssert(live[f] == (what == "HIT"), "hits are of files stored before, misses are not")
			seen++
		case "ADD":
			vAssert(seen > 0 && f == asked[seen-1] && !live[f], "only the file that was missed is added")
			live[f] = true
			vCover("added")
		case "SKIP":
			vAssert(seen > 0 && f == asked[seen-1] && !live[f], "only the file that was missed is skipped")
			vCover("skipped")
		case "DELETE":
			vAssert(f != nil && live[f], "only stored files are deleted")
			delete(live, f)
			vCover("deleted")
		case "KEEP":
			vAssert(f != nil && live[f], "only stored files are kept")
			vCover("kept")
		case "FREE", "ONK", "ONFREE", "ONDAYEND", "FORCEDCALL":
			vAssert(f == nil || f.name == -1, "no file")
		default:
			vAssert(false, "kind of event "+what)
		}
		size := 0.0
		for _, o := range v.files {
			if live[o] {
				size += o.size
			}
		}
		vAssert(vLogNum(r[col["cache size"]], size), "occupied space after an event")
		vAssert(vLogNum(r[col["cache capacity"]], size/v.max*100), "capacity after an event")
		tick := seen - 1
		switch what {
		case "ONDAYEND", "DELETE", "KEEP":
			t, err := strconv.ParseInt(r[col["tick"]], 10, 64)
			vAssert(err == nil && (t == int64(seen) || t == int64(tick)), "request number of an event")
		default:
			if seen <= nreq {
				vAssert(vLogInt(r[col["tick"]], int64(tick)), "request number of an event")
			}
		}
		switch what {
		case "ADD", "SKIP", "DELETE", "KEEP":
			vAssert(vLogNum(r[col["size"]], f.size), "size of the file of an event")
			n := int64(0)
			for _, o := range asked[:seen] {
				if o == f {
					n++
				}
			}
			vAssert(vLogInt(r[col["num req"]], n), "requests of the file of an event")
		}
	}
	vAssert(seen == len(asked), "one line per lookup")
	for i, f := range v.files {
		vAssert(left[i] == live[f], "the lines tell the files that are stored")
	}
	vAssert(lines["ADD"] == added, "one line per stored file")
	vAssert(lines["DELETE"] == deleted+0, "one line per deleted file")
	vAssert(lines["SKIP"] == skips, "one line per skipped file")
	if v.evc && !v.add {
		vAssert(lines["FORCEDCALL"] == forced, "one line per forced call")
		vAssert(lines["ONK"]+lines["ONFREE"]+lines["ONDAYEND"]+lines["FORCEDCALL"] == calls, "one line per call of the eviction agent")
	}
	if v.mode == "onDayEnd" {
		vAssert(lines["ONDAYEND"] == int64(days), "one line per end of day")
	}
	vObserve("lines", len(rows))
}
