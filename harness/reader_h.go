package PKG

import (
	"compress/gzip"
	"io"
	"os"
	"strconv"
	"strings"
)

// Harnesses for the input files and the filters.

// vRow is a record as it stands in an input file.
type vRow struct {
	rec CSVRecord
	txt map[string]string
}

var vColumns = []string{"Filename", "SiteName", "UserID", "TaskID", "TaskMonitorID", "JobID", "Protocol", "JobExecExitCode", "JobStart", "JobEnd", "NumCPU", "WrapWC", "WrapCPU", "Size", "DataType", "FileType", "JobLengthH", "JobLengthM", "JobSuccess", "CPUTime", "IOTime", "reqDay", "Region", "Campaign", "Process"}

func vDrawRow() vRow {
	r := vRow{txt: map[string]string{}}
	i := func(name string, top int64) int64 {
		x := vInt(name, 0, top)
		r.txt[name] = strconv.FormatInt(x, 10)
		return x
	}
	f := func(name string, top float64) float64 {
		x := vFloat(name, 0, top, 4)
		r.txt[name] = strconv.FormatFloat(x, 'f', -1, 64)
		return x
	}
	c := &r.rec
	c.Filename = i("Filename", 1<<50)
	c.SiteName = i("SiteName", 100)
	c.UserID = i("UserID", 1<<40)
	c.TaskID = i("TaskID", 1<<40)
	c.TaskMonitorID = i("TaskMonitorID", 1<<40)
	c.JobID = i("JobID", 1<<40)
	c.Protocol = i("Protocol", 3)
	c.JobExecExitCode = i("JobExecExitCode", 1000)
	c.JobStart = i("JobStart", 1<<33)
	c.JobEnd = i("JobEnd", 1<<33)
	c.NumCPU = i("NumCPU", 128)
	c.WrapWC = f("WrapWC", 1<<20)
	c.WrapCPU = f("WrapCPU", 1<<20)
	c.Size = f("Size", 1<<45)
	c.SizeM = c.Size / 1048576
	c.DataType = i("DataType", 10)
	c.FileType = i("FileType", 20)
	c.JobLengthH = f("JobLengthH", 1<<20)
	c.JobLengthM = f("JobLengthM", 1<<20)
	c.JobSuccess = vBool("JobSuccess")
	r.txt["JobSuccess"] = strconv.FormatBool(c.JobSuccess)
	c.CPUTime = f("CPUTime", 1<<30)
	c.IOTime = f("IOTime", 1<<30)
	c.Day = i("reqDay", 1<<33)
	c.Region = i("Region", 10)
	c.Campaign = i("Campaign", 1<<30)
	c.Process = i("Process", 1<<30)
	return r
}

func (r vRow) line(cols []string) string {
	var l []string
	for _, c := range cols {
		if t, ok := r.txt[c]; ok {
			l = append(l, t)
		} else {
			l = append(l, "other")
		}
	}
	return strings.Join(l, ",") + "\n"
}

func vTable(path string, cols []string, rows []vRow) {
	var b strings.Builder
	b.WriteString(strings.Join(cols, ",") + "\n")
	for _, r := range rows {
		b.WriteString(r.line(cols))
	}
	out, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	if strings.HasSuffix(path, ".gz") || strings.HasSuffix(path, ".gzip") {
		z := gzip.NewWriter(out)
		io.WriteString(z, b.String())
		z.Close()
	} else {
		io.WriteString(out, b.String())
	}
	out.Close()
}

func vSameRecord(a, b CSVRecord, what string) {
	vAssert(a.Filename == b.Filename, what+": Filename")
	vAssert(a.SiteName == b.SiteName, what+": SiteName")
	vAssert(a.UserID == b.UserID, what+": UserID")
	vAssert(a.TaskID == b.TaskID, what+": TaskID")
	vAssert(a.TaskMonitorID == b.TaskMonitorID, what+": TaskMonitorID")
	vAssert(a.JobID == b.JobID, what+": JobID")
	vAssert(a.Protocol == b.Protocol, what+": Protocol")
	vAssert(a.JobExecExitCode == b.JobExecExitCode, what+": JobExecExitCode")
	vAssert(a.JobStart == b.JobStart, what+": JobStart")
	vAssert(a.JobEnd == b.JobEnd, what+": JobEnd")
	vAssert(a.NumCPU == b.NumCPU, what+": NumCPU")
	vAssert(a.WrapWC == b.WrapWC, what+": WrapWC")
	vAssert(a.WrapCPU == b.WrapCPU, what+": WrapCPU")
	vAssert(a.Size == b.Size, what+": Size")
	vAssert(a.SizeM == b.SizeM, what+": size in megabytes")
	vAssert(a.DataType == b.DataType, what+": DataType")
	vAssert(a.FileType == b.FileType, what+": FileType")
	vAssert(a.JobLengthH == b.JobLengthH, what+": JobLengthH")
	vAssert(a.JobLengthM == b.JobLengthM, what+": JobLengthM")
	vAssert(a.JobSuccess == b.JobSuccess, what+": JobSuccess")
	vAssert(a.CPUTime == b.CPUTime, what+": CPUTime")
	vAssert(a.IOTime == b.IOTime, what+": IOTime")
	vAssert(a.Day == b.Day, what+": reqDay")
	vAssert(a.Region == b.Region, what+": Region")
	vAssert(a.Campaign == b.Campaign, what+": Campaign")
	vAssert(a.Process == b.Process, what+": Process")
}

// vOrder permutes the columns: rotated, one of them moved, two swapped, reversed, or with a further column.
func vOrder() []string {
	cols := append([]string{}, vColumns...)
	n := len(cols)
	switch vChoice("order", 6) {
	case 1:
		k := 1 + vChoice("rotate", n-1)
		cols = append(append([]string{}, cols[k:]...), cols[:k]...)
	case 2:
		for i := 0; i < n/2; i++ {
			cols[i], cols[n-1-i] = cols[n-1-i], cols[i]
		}
	case 3:
		i := vChoice("swap", n-1)
		j := i + 1 + vChoice("with", n-1-i)
		cols[i], cols[j] = cols[j], cols[i]
	case 4:
		i := vChoice("move", n)
		c := cols[i]
		cols = append(append([]string{}, cols[:i]...), cols[i+1:]...)
		cols = append(cols, c)
	case 5:
		i := vChoice("further", n+1)
		near := cols[i%n]
		name := []string{"Other", near + "OnDisk", "Old" + near, strings.ToLower(near), ""}[vChoice("further name", 5)]
		cols = append(append(append([]string{}, cols[:i]...), name), cols[i:]...)
	}
	return cols
}

// vhColumns: one record under any of these orders of the columns, plain or compressed.
func vhColumns() {
	cols := vOrder()
	r := vDrawRow()
	name := []string{"in.csv", "in.csv.gz", "in.gzip", "in"}[vChoice("suffix", 4)]
	path := vTmpDir() + "/" + name
	vTable(path, cols, []vRow{r})
	n := 0
	for got := range OpenSimFile(path) {
		vSameRecord(got, r.rec, "record")
		n++
	}
	vAssert(n == 1, "number of records")
	vObserve("file", r.rec.Filename)
}

// vhRecords: any number of records of a file, in order.
func vhRecords() {
	n := vChoice("records", int(vConf("records"))+1)
	var rows []vRow
	for i := 0; i < n; i++ {
		rows = append(rows, vDrawRow())
	}
	cols := vColumns
	if vBool("other order") {
		cols = append(append([]string{}, cols[3:]...), cols[:3]...)
	}
	path := vTmpDir() + "/in.csv"
	if vBool("compressed") {
		path += ".gz"
	}
	vTable(path, cols, rows)
	k := 0
	for got := range OpenSimFile(path) {
		vAssert(k < n, "no more records than in the file")
		vSameRecord(got, rows[k].rec, "record")
		k++
	}
	vAssert(k == n, "all records of the file are delivered")
}

// vhFolder: the compressed files of a folder in the order of their names.
func vhFolder() {
	dir := vTmpDir() + "/in"
	if err := os.Mkdir(dir, 0o755); err != nil {
		panic(err)
	}
	var want []CSVRecord
	names := []string{"b.csv.gz", "a.csv.gz", "a1.csv.gz", "a.txt", "c.gz"}
	perm := vChoice("first", len(names)) // written in any rotation
	have := map[string][]vRow{}
	for i := range names {
		n := names[(i+perm)%len(names)]
		k := vChoice("records", int(vConf("records"))+1)
		for j := 0; j < k; j++ {
			have[n] = append(have[n], vDrawRow())
		}
		vTable(dir+"/"+n, vColumns, have[n])
	}
	for _, n := range []string{"a.csv.gz", "a1.csv.gz", "b.csv.gz", "c.gz"} {
		for _, r := range have[n] {
			want = append(want, r.rec)
		}
	}
	f, err := os.Open(dir)
	if err != nil {
		panic(err)
	}
	k := 0
	for got := range OpenSimFolder(f) {
		vAssert(k < len(want), "no more records than in the files")
		vSameRecord(got, want[k], "record")
		k++
	}
	vAssert(k == len(want), "all records of the files are delivered")
	f.Close()
}

// vhFilters: every filter on an arbitrary record.
func vhFilters() {
	r := CSVRecord{
		Day: vInt("Day", -vAny, vAny), Region: vInt("Region", -vAny, vAny), Filename: vInt("Filename", -vAny, vAny), FileType: vInt("FileType", -vAny, vAny),
		DataType: vInt("DataType", -vAny, vAny), Campaign: vInt("Campaign", -vAny, vAny), Process: vInt("Process", -vAny, vAny), Protocol: vInt("Protocol", -vAny, vAny),
		TaskMonitorID: vInt("TaskMonitorID", -vAny, vAny), TaskID: vInt("TaskID", -vAny, vAny), JobID: vInt("JobID", -vAny, vAny), SiteName: vInt("SiteName", -vAny, vAny),
		JobExecExitCode: vInt("JobExecExitCode", -vAny, vAny), JobStart: vInt("JobStart", -vAny, vAny), JobEnd: vInt("JobEnd", -vAny, vAny), JobSuccess: vBool("JobSuccess"),
		JobLengthH: vFloat("JobLengthH", -1e6, 1e6, 4), JobLengthM: vFloat("JobLengthM", -1e6, 1e6, 4), UserID: vInt("UserID", -vAny, vAny), NumCPU: vInt("NumCPU", -vAny, vAny),
		WrapWC: vFloat("WrapWC", -1e6, 1e6, 4), WrapCPU: vFloat("WrapCPU", -1e6, 1e6, 4), CPUTime: vFloat("CPUTime", -1e6, 1e6, 4), IOTime: vFloat("IOTime", -1e6, 1e6, 4),
		Size: vFloat("Size", 0, 1e9, 4),
	}
	r.SizeM = r.Size / 1048576
	mini := vOr(r.FileType == 2, r.FileType == 9)
	var got, want bool
	switch vChoice("filter", 6) {
	case 0:
		got, want = SuccessJob{}.Check(r), vAnd(r.JobSuccess, r.JobExecExitCode == 0)
	case 1:
		got, want = UsDataMcTypes{}.Check(r), vOr(r.DataType == 0, r.DataType == 3)
	case 2:
		got, want = ItDataMcTypes{}.Check(r), vOr(r.DataType == 0, r.DataType == 1)
	case 3:
		got, want = UsMINIAODNOT1andT3{}.Check(r), vAnd(mini, r.SiteName < 9)
	case 4:
		got, want = UsMINIAODNOFNALLPCNOT1FNALLFilter{}.Check(r), vAnd(mini, vAnd(r.SiteName != 9, r.SiteName != 16))
	case 5:
		got, want = UsMINIAODandNOFNALLPCFilter{}.Check(r), vAnd(mini, r.SiteName != 16)
	}
	vAssert(got == want, "accepted exactly when it belongs to the class")
	if got {
		vCover("accepted")
	} else {
		vCover("refused")
	}
	vObserve("accepted", vIteI(got, 1, 0))
}

const vAny = 1 << 61

// vhUnits: every unit of size.
func vhUnits() {
	x := vFloat("size", 0, 1<<20, 10)
	all := []string{"M", "m", "G", "g", "T", "t", "P", "p", "", "K", "k", "B", "b", "E", "MB", "GB", "Mb", "MiB", " M", "M ", "0"}
	k := vChoice("unit", len(all))
	refused := false
	var got float64
	func() {
		defer func() {
			if recover() != nil {
				refused = true
			}
		}()
		got = GetCacheSize(x, all[k])
	}()
	vAssert(refused == (k >= 8), "exactly the known units are accepted")
	if !refused {
		want := x
		for i := 0; i < k/2; i++ {
			want *= 1024
		}
		vAssert(got == want, "size in megabytes")
		vObserve("megabytes", got)
		vCover("known")
	} else {
		vCover("unknown")
	}
}
