package PKG

import (
	"encoding/csv"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Harnesses for whole simulations. The expected outcome is computed from the records alone; the counters of the expected rows
// come from a second cache that serves exactly the records which have to reach the cache.

type vRunStats struct {
	Tot, Jumped, Invalid, Filtered, Redirected int64
	RedSize                                    float64
}

type vSim struct {
	kind    string
	dir     string
	names   []int64
	sizes   []int64
	known   int
	rows    []vRow
	par     SimulationParams
	stop    int
	want    vRunStats
	days    []map[string]string
	served  int
	dataF   int
	recF    int
	allJump bool
}

const vNever = 1000

// vSimCache builds a cache for a simulation.
func vSimCache(kind string, max float64) Cache {
	par := WeightFunctionParameters{Alpha: 1, Beta: 1, Gamma: 1}
	p := InitParameters{MaxNumDayDiff: 1000, DeltaDaysStep: 1000, RandSeed: 42, FunctionTypeString: "FuncAdditive", WfParams: par}
	if kind == "aiRL" {
		p, _ = vAgentParams(vConf("agents"), vConf("mode"))
	}
	redirect := vConf("redirect")
	if redirect > 0 {
		p.RedirectReq = true
	}
	c := Create(kind, max, "M", "FuncAdditive", par)
	InitInstance(kind, c, p)
	SetRegion(c, "it")
	if redirect > 0 {
		SetBandwidth(c, float64(redirect)/1024)
	} else {
		SetBandwidth(c, 10)
	}
	return c
}

// vDrawSim draws the records: files of constant sizes, the other fields as the configuration says.
func (s *vSim) draw(n int, day int64) int64 {
	nf := int(vConf("files"))
	for i := 0; i < n; i++ {
		k := 0
		if nf > 1 {
			m := s.known + 1
			if m > nf {
				m = nf
			}
			k = vChoice("file", m)
		}
		if k == s.known {
			s.known++
			nm := vInt("Filename", 0, 1<<50)
			for _, o := range s.names {
				vAssume(o != nm)
			}
			s.names = append(s.names, nm)
			s.sizes = append(s.sizes, vInt("size", 0, 1<<vConf("sizebits")))
		}
		var r vRow
		r.txt = map[string]string{}
		for _, c := range vColumns {
			r.txt[c] = "1"
		}
		c := &r.rec
		c.Filename = s.names[k]
		c.SizeM = float64(s.sizes[k])
		c.Size = float64(s.sizes[k]) * 1048576
		r.txt["Filename"] = strconv.FormatInt(c.Filename, 10)
		r.txt["Size"] = strconv.FormatFloat(c.Size, 'f', -1, 64)
		c.JobSuccess, c.FileType, c.SiteName, c.UserID, c.CPUTime, c.IOTime, c.Protocol = true, 2, 3, 4, 3, 1, 1
		if vConf("filters") > 0 {
			c.JobSuccess = vBool("JobSuccess")
			c.JobExecExitCode = vInt("JobExecExitCode", 0, 100)
			c.DataType = vInt("DataType", 0, 5)
			c.FileType = vInt("FileType", 0, 10)
			c.SiteName = vInt("SiteName", 0, 20)
		}
		switch vConf("cpu") {
		case 1:
			c.CPUTime = vFloat("CPUTime", -1000, 1000, 2)
			c.IOTime = vFloat("IOTime", -1000, 1000, 2)
		case 2: // the numerator of the efficiency
			c.CPUTime = vFloat("CPUTime", -150, 150, 4)
			c.IOTime = 100 - c.CPUTime
			c.Protocol = int64(vChoice("Protocol", 2))
		}
		if vConf("stats") > 0 {
			c.UserID = vInt("UserID", 0, 1<<30)
			c.SiteName = vInt("SiteName", 0, 1<<30)
			c.FileType = vInt("FileType", 0, 100)
		}
		if vConf("days") > 0 {
			switch vConf("days") {
			case 1: // any time, forwards and backwards
				c.Day = day + vInt("time", -2*86400, 5*86400)
			case 2: // forwards, by up to two days
				day += vInt("gap", 0, 2*86400)
				c.Day = day
			}
		} else {
			c.Day = day
		}
		r.txt["JobSuccess"] = strconv.FormatBool(c.JobSuccess)
		for nm, x := range map[string]int64{"JobExecExitCode": c.JobExecExitCode, "DataType": c.DataType, "FileType": c.FileType, "SiteName": c.SiteName, "UserID": c.UserID, "Protocol": c.Protocol, "reqDay": c.Day} {
			r.txt[nm] = strconv.FormatInt(x, 10)
		}
		r.txt["CPUTime"] = strconv.FormatFloat(c.CPUTime, 'f', -1, 64)
		r.txt["IOTime"] = strconv.FormatFloat(c.IOTime, 'f', -1, 64)
		s.rows = append(s.rows, r)
	}
	return day
}

// accepts: the record passes the filters of the simulation.
func (s *vSim) accepts(r CSVRecord) bool {
	if !(r.JobSuccess && r.JobExecExitCode == 0) {
		return false
	}
	switch s.dataF {
	case 1:
		if r.DataType != 0 && r.DataType != 3 {
			return false
		}
	case 2:
		if r.DataType != 0 && r.DataType != 1 {
			return false
		}
	}
	mini := r.FileType == 2 || r.FileType == 9
	switch s.recF {
	case 1:
		return mini && r.SiteName < 9
	case 2:
		return mini && r.SiteName != 9 && r.SiteName != 16
	case 3:
		return mini && r.SiteName != 16
	}
	return true
}

// valid: the CPU efficiency is within 0..100.
func (s *vSim) valid(r CSVRecord) bool {
	sum := r.CPUTime + r.IOTime
	if sum > 0 {
		return r.CPUTime >= 0 && r.CPUTime <= sum
	}
	if sum < 0 {
		return r.CPUTime <= 0 && r.CPUTime >= sum
	}
	return false
}

func vDayRow(c Cache, day int64) map[string]string {
	d := func(x int64) string { return fmt.Sprintf("%d", x) }
	f := func(x float64) string { return fmt.Sprintf("%f", x) }
	return map[string]string{
		"date":                       time.Unix(day, 0).String(),
		"num req":                    d(NumRequests(c)),
		"num hit":                    d(NumHits(c)),
		"num added":                  d(NumAdded(c)),
		"num deleted":                d(NumDeleted(c)),
		"num redirected":             d(NumRedirected(c)),
		"num miss after delete":      d(int64(GetTotDeletedFileMiss(c))),
		"size redirected":            f(RedirectedSize(c)),
		"cache size":                 f(GetMaxSize(c)),
		"size":                       f(Size(c)),
		"capacity":                   f(Capacity(c)),
		"bandwidth":                  f(Bandwidth(c)),
		"bandwidth usage":            f(BandwidthUsage(c)),
		"hit rate":                   fmt.Sprintf("%0.2f", HitRate(c)),
		"weighted hit rate":          fmt.Sprintf("%0.2f", WeightedHitRate(c)),
		"written data":               f(DataWritten(c)),
		"read data":                  f(DataRead(c)),
		"read on hit data":           f(DataReadOnHit(c)),
		"read on miss data":          f(DataReadOnMiss(c)),
		"deleted data":               f(DataDeleted(c)),
		"avg free space":             f(AvgFreeSpace(c)),
		"std dev free space":         f(StdDevFreeSpace(c)),
		"CPU efficiency":             f(CPUEff(c)),
		"CPU hit efficiency":         f(CPUHitEff(c)),
		"CPU miss efficiency":        f(CPUMissEff(c)),
		"CPU efficiency upper bound": f(CPUEffUpperBound(c)),
		"CPU efficiency lower bound": f(CPUEffLowerBound(c)),
	}
}

// vAgentCells adds the columns of a learned cache.
func vAgentCells(c Cache, row map[string]string) {
	for _, g := range [][]string{{"epsilonStats", "Addition epsilon", "Eviction epsilon"}, {"valueFunctions", "Addition qvalue function", "Eviction qvalue function"},
		{"evictionStats", "Eviction calls", "Eviction forced calls"}, {"evictionCategoryStats", "Eviction mean num categories", "Eviction std dev num categories"},
		{"actionStats", "Action store", "Action not store", "Action delete all", "Action delete half", "Action delete quarter", "Action delete one", "Action not delete"}} {
		cells := strings.Split(ExtraOutput(c, g[0]), ",")
		vAssert(len(cells) == len(g)-1, "a value per column of the agents")
		for i, x := range cells {
			row[g[i+1]] = x
		}
	}
}

// expect computes what the simulation has to do with its records, given the cache the simulation starts with.
func (s *vSim) expect(c Cache) {
	s.want = vRunStats{}
	s.days = nil
	day := 0 // completed days
	first := int64(0)
	for i, r := range s.rows {
		if i == 0 {
			first = r.rec.Day
		}
		if r.rec.Day-first >= 23*3600 {
			if day/s.par.WindowSize >= s.par.WindowStart {
				s.days = append(s.days, vDayRow(c, first))
				if s.kind == "aiRL" {
					vAgentCells(c, s.days[len(s.days)-1])
				}
			}
			ClearStats(c)
			day++
			first = r.rec.Day
		}
		w := day / s.par.WindowSize
		if w >= s.par.WindowStop {
			vCover("stopped")
			break
		}
		s.want.Tot++
		if w < s.par.WindowStart {
			s.want.Jumped++
			continue
		}
		if !s.accepts(r.rec) {
			s.want.Filtered++
			vCover("filtered")
			continue
		}
		if !s.valid(r.rec) {
			s.want.Invalid++
			vCover("invalid")
			continue
		}
		x := r.rec
		_, red := GetFile(c, x.Filename, x.SizeM, x.Protocol, x.CPUTime/(x.CPUTime+x.IOTime)*100, x.Day, x.SiteName, x.UserID, x.FileType)
		if red {
			s.want.Redirected++
			s.want.RedSize += x.SizeM
			vCover("redirected")
			continue
		}
		s.served++
	}
}

func vSameCell(got, want, name string) {
	if name == "date" {
		vAssert(got == want, "column "+name)
		return
	}
	x, e1 := strconv.ParseFloat(got, 64)
	y, e2 := strconv.ParseFloat(want, 64)
	vAssert(e1 == nil && e2 == nil, "column "+name)
	d := 0.000002
	if strings.HasSuffix(name, "hit rate") || strings.HasPrefix(name, "value of") {
		d = 0.011
	}
	if x != x || y != y {
		vAssert(x != x && y != y, "column "+name)
		return
	}
	vAssert(vAnd(x-y <= d, y-x <= d), "column "+name)
}

// check compares the outputs of the simulation.
func (s *vSim) check(what string) {
	data, err := os.ReadFile(s.par.ResultRunStatsName)
	vAssert(err == nil, what+": statistics file written")
	var got struct {
		Tot        int64   `json:"totNumRecords"`
		Jumped     int64   `json:"totJumpedRecords"`
		Invalid    int64   `json:"totInvalidRecords"`
		Filtered   int64   `json:"totFilteredRecords"`
		Redirected int64   `json:"totRedirectedRecords"`
		RedSize    float64 `json:"sizeRedirectedRecords"`
	}
	got.Tot, got.Jumped, got.Invalid, got.Filtered, got.Redirected, got.RedSize = -1, -1, -1, -1, -1, -1
	vAssert(json.Unmarshal(data, &got) == nil, what+": statistics file readable")
	vAssert(got.Tot == s.want.Tot, what+": records in total")
	vAssert(got.Jumped == s.want.Jumped, what+": jumped records")
	vAssert(got.Filtered == s.want.Filtered, what+": filtered records")
	vAssert(got.Invalid == s.want.Invalid, what+": invalid records")
	vAssert(got.Redirected == s.want.Redirected, what+": redirected records")
	vAssert(got.RedSize == s.want.RedSize, what+": redirected size")

	f, err := os.Open(s.par.OutFile)
	vAssert(err == nil, what+": result file written")
	rows, err := csv.NewReader(f).ReadAll()
	f.Close()
	vAssert(err == nil && len(rows) > 0, what+": result file readable")
	vAssert(len(rows)-1 == len(s.days), what+": one row per completed day")
	for i, want := range s.days {
		vAssert(len(rows[i+1]) == len(rows[0]), what+": cells of a row")
		n := 0
		for j, name := range rows[0] {
			if w, ok := want[name]; ok {
				vSameCell(rows[i+1][j], w, name)
				n++
			}
		}
		vAssert(n == len(want), what+": all columns")
	}
	if len(s.days) > 0 {
		vCover("row")
	}
}

// vTableRows gives the values of the actions, by name, of every state: the features come in any order.
func vTableRows(rows [][]string, actions int) map[string]map[string]string {
	out := map[string]map[string]string{}
	for _, r := range rows[1:] {
		vAssert(len(r) == len(rows[0]), "cells of a line of an agent's table")
		var key []string
		vals := map[string]string{}
		for k, cell := range r {
			if k < actions {
				vals[rows[0][k]] = cell
			} else {
				key = append(key, rows[0][k]+"="+cell)
			}
		}
		sort.Strings(key)
		out[strings.Join(key, ",")] = vals
	}
	return out
}

func vNewSim() *vSim {
	s := &vSim{kind: vConfS("kind"), dir: vTmpDir()}
	if err := os.Chdir(s.dir); err != nil {
		panic(err)
	}
	s.par = SimulationParams{DataPath: s.dir + "/in.csv", OutFile: s.dir + "/out.csv", ResultRunStatsName: s.dir + "/run.json", BaseName: "sim",
		WindowSize: 1, WindowStart: 0, WindowStop: vNever, OutputUpdateDelay: 1e9}
	if vConf("progress") > 0 {
		s.par.OutputUpdateDelay = 0
	}
	if vConf("windows") > 0 {
		s.par.WindowSize = 1 + vChoice("window size", 2)
		s.par.WindowStart = vChoice("window start", 3)
		s.par.WindowStop = s.par.WindowStart + vChoice("window stop", 3)
		if s.par.WindowStop == s.par.WindowStart+2 {
			s.par.WindowStop = vNever
		}
	}
	if vConf("filters") > 0 {
		s.dataF = vChoice("data filter", 3)
		s.recF = vChoice("record filter", 4)
		switch s.dataF {
		case 1:
			s.par.DataTypeFilter = UsDataMcTypes{}
		case 2:
			s.par.DataTypeFilter = ItDataMcTypes{}
		}
		switch s.recF {
		case 1:
			s.par.RecordFilter = UsMINIAODNOT1andT3{}
		case 2:
			s.par.RecordFilter = UsMINIAODNOFNALLPCNOT1FNALLFilter{}
		case 3:
			s.par.RecordFilter = UsMINIAODandNOFNALLPCFilter{}
		}
	}
	return s
}

// input writes the records, into one file or the files of a folder.
func (s *vSim) input() {
	switch vConf("folder") {
	case 0:
		vTable(s.par.DataPath, vColumns, s.rows)
	case 1:
		dir := s.dir + "/in"
		if err := os.Mkdir(dir, 0o755); err != nil {
			panic(err)
		}
		k := vChoice("in the first file", len(s.rows)+1)
		vTable(dir+"/b.csv.gz", vColumns, s.rows[k:])
		vTable(dir+"/a.csv.gz", vColumns, s.rows[:k])
		s.par.DataPath = dir
	}
}

// vhSimulate: any records under the configuration; the run statistics and the daily rows.
func vhSimulate() {
	s := vNewSim()
	n := int(vConf("records"))
	s.draw(n, 20000*86400)
	s.input()
	max := float64(int64(2) << uint(vConf("sizebits")))
	if vConf("max") > 0 {
		max = float64(vInt("max", 1, 1<<(vConf("sizebits")+1)))
	}
	twin := vSimCache(s.kind, max)
	s.expect(twin)
	vRandRewind()
	c := vSimCache(s.kind, max)
	Simulate(s.kind, c, s.par)
	s.check("run")
	vSameCounters(c, twin, "after the run")
	if s.kind == "aiRL" {
		vAssert(ExtraOutput(c, "actionStats") == ExtraOutput(twin, "actionStats"), "decisions after the run")
		for _, f := range s.names {
			vAssert(Check(c, f) == Check(twin, f), "residents after the run")
		}
		for i, name := range []string{"additionQTable.csv", "evictionQTable.csv"} {
			f, err := os.Open(name)
			there := vConf("agents") == 2 || (vConf("agents") == 1) == (i == 1)
			vAssert((err == nil) == there, "table of each agent written")
			if there {
				got, err := csv.NewReader(f).ReadAll()
				vAssert(err == nil, "table of an agent readable")
				f.Close()
				want, _ := csv.NewReader(strings.NewReader(ExtraOutput(twin, []string{"additionQTable", "evictionQTable"}[i]))).ReadAll()
				vAssert(len(got) == len(want), "a line per state of an agent")
				a, b := vTableRows(got, []int{2, 5}[i]), vTableRows(want, []int{2, 5}[i])
				vAssert(len(a) == len(got)-1, "a line per state of an agent")
				for state, values := range b {
					other, ok := a[state]
					vAssert(ok, "states of an agent's table")
					for name, x := range values {
						vSameCell(other[name], x, "value of an action")
					}
				}
			}
		}
	}
	vObserve("total", s.want.Tot)
	vObserve("served", s.served)
	vObserve("size", Size(c))
	if s.want.Jumped > 0 {
		vCover("jumped")
	}
	if s.served > 1 {
		vCover("several served")
	}
}

// vhResume: a simulation that leaves a dump and one that starts from it, hot or cold.
func vhResume() {
	s := vNewSim()
	all := vBool("statistics in the dump")
	s.par.Dump, s.par.DumpFilesAndStats, s.par.DumpFileName = true, all, s.dir+"/dump.json.gz"
	n := 1 + vChoice("before", int(vConf("before")))
	day := s.draw(n, 20000*86400)
	s.input()
	max := float64(int64(2) << uint(vConf("sizebits")))
	if vConf("max") > 0 {
		max = float64(vInt("max", 1, 1<<(vConf("sizebits")+1)))
	}
	twin := vSimCache(s.kind, max)
	s.expect(twin)
	Dump(twin, s.dir+"/twin.json.gz", all)
	c := vSimCache(s.kind, max)
	Simulate(s.kind, c, s.par)
	s.check("first run")
	days := len(s.days)

	again := vSimCache(s.kind, max)
	Loads(again, Load(again, s.dir+"/twin.json.gz"))
	s.par.LoadDump, s.par.LoadDumpFileName, s.par.Dump = true, s.dir+"/dump.json.gz", false
	switch vChoice("start", 3) {
	case 0:
		vCover("hot")
	case 1:
		s.par.ColdStart = true
		ClearFiles(again)
		vCover("cold")
	case 2:
		s.par.ColdStart, s.par.ColdStartNoStats = true, true
		Clear(again)
		vCover("cold without statistics")
	}
	s.rows = nil
	n = 1 + vChoice("after", int(vConf("after")))
	s.draw(n, day)
	if vConf("folder") == 0 {
		vTable(s.par.DataPath, vColumns, s.rows)
	}
	s.expect(again)
	c = vSimCache(s.kind, max)
	Simulate(s.kind, c, s.par)
	s.check("second run")
	vSameCounters(c, again, "after the second run")
	vAssert(Size(c) == Size(again), "size after the second run")
	for _, f := range s.names {
		vAssert(Check(c, f) == Check(again, f), "residents after the second run")
	}
	old, err := os.Open(s.dir + "/out_run-00.csv")
	vAssert(err == nil, "rows of the first run kept")
	rows, err := csv.NewReader(old).ReadAll()
	old.Close()
	vAssert(err == nil && len(rows)-1 == days, "rows of the first run complete")
}
