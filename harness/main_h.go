package PKG

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"simulator/v2/cache"

	"github.com/spf13/viper"
)

// Harness for the command line: from a configuration to the simulation that is run. The calls of viper go to a plain table of
// keys, the calls of the cache package that build and run a simulation are recorded.

type vViper struct {
	set, def map[string]interface{}
	name     string
	paths    []string
	typ      string
	read     bool
	file     string // the configuration file that is there, without its extension
}

var vviper *vViper

func (c *vViper) SetConfigName(n string)                 { c.name = n }
func (c *vViper) SetConfigType(t string)                 { c.typ = t }
func (c *vViper) AddConfigPath(p string)                 { c.paths = append(c.paths, p) }
func (c *vViper) SetConfigFile(n string)                 { c.name = strings.TrimSuffix(filepath.Base(n), filepath.Ext(n)); c.paths = []string{filepath.Dir(n)} }
func (c *vViper) SetDefault(key string, val interface{}) { c.def[strings.ToLower(key)] = val }

func (c *vViper) ReadInConfig() error {
	for _, p := range c.paths {
		if _, err := os.Stat(filepath.Join(p, c.name+".yml")); err == nil {
			c.read = true
			return nil
		}
	}
	return errors.New("no configuration file")
}

func (c *vViper) IsSet(key string) bool {
	return c.Get(key) != nil
}

func (c *vViper) Get(key string) interface{} {
	key = strings.ToLower(key)
	if c.read {
		if v, ok := c.set[key]; ok {
			return v
		}
	}
	if v, ok := c.def[key]; ok {
		return v
	}
	return nil
}

func (c *vViper) GetFloat64(key string) float64 {
	switch v := c.Get(key).(type) {
	case float64:
		return v
	case int:
		return float64(v)
	case int64:
		return float64(v)
	}
	return 0
}

func (c *vViper) GetInt64(key string) int64 {
	switch v := c.Get(key).(type) {
	case float64:
		return int64(v)
	case int:
		return int64(v)
	case int64:
		return v
	}
	return 0
}

func (c *vViper) GetInt(key string) int                     { return int(c.GetInt64(key)) }
func (c *vViper) GetInt32(key string) int32                 { return int32(c.GetInt64(key)) }
func (c *vViper) GetUint(key string) uint                   { return uint(c.GetInt64(key)) }
func (c *vViper) GetDuration(key string) time.Duration      { return time.Duration(c.GetInt64(key)) }
func (c *vViper) GetBool(key string) bool                   { b, _ := c.Get(key).(bool); return b }
func (c *vViper) GetString(key string) string               { s, _ := c.Get(key).(string); return s }

// vRun is what the command asked of the cache package.
type vRun struct {
	steps      []string
	kind, unit string
	size       float64
	wf         string
	wfp        cache.WeightFunctionParameters
	init       cache.InitParameters
	bandwidth  float64
	region     string
	par        cache.SimulationParams
	wd         string
	instance   cache.Cache
}

var vran *vRun

type vCacheMark struct{ cache.Cache }

func vCreate(cacheType string, cacheSize float64, cacheSizeUnit string, weightFunc string, p cache.WeightFunctionParameters) cache.Cache {
	vran.steps = append(vran.steps, "create")
	vran.kind, vran.size, vran.unit, vran.wf, vran.wfp = cacheType, cacheSize, cacheSizeUnit, weightFunc, p
	vran.instance = &vCacheMark{}
	return vran.instance
}

func vInitInstance(cacheType string, c cache.Cache, p cache.InitParameters) {
	vran.steps = append(vran.steps, "init")
	vAssert(cacheType == vran.kind && c == vran.instance, "the cache that is initialised is the one created, with its type")
	vran.init = p
}

func vSetBandwidth(c cache.Cache, b float64) {
	vran.steps = append(vran.steps, "bandwidth")
	vAssert(c == vran.instance, "the bandwidth is that of the simulated cache")
	vran.bandwidth = b
}

func vSetRegion(c cache.Cache, r string) {
	vran.steps = append(vran.steps, "region")
	vAssert(c == vran.instance, "the region is that of the simulated cache")
	vran.region = r
}

func vSimulate(cacheType string, c cache.Cache, p cache.SimulationParams) {
	vran.steps = append(vran.steps, "simulate")
	vAssert(cacheType == vran.kind && c == vran.instance, "the simulated cache is the one created, with its type")
	vran.par = p
	vran.wd, _ = os.Getwd()
}

type vKey struct {
	name string
	def  interface{}
	kind int // 0: number, 1: whole number, 2: truth value, 3: text, 4: path relative to the configuration
}

const (
	vNumK = iota
	vIntK
	vBoolK
	vTextK
	vPathK
)

// what the configuration can say and what holds when it does not
var vKeys = []vKey{
	{"sim.seed", int64(42), vIntK},
	{"sim.cache.size.value", 100., vNumK},
	{"sim.cache.size.unit", "T", vTextK},
	{"sim.overwrite", false, vBoolK},
	{"sim.cache.bandwidth.value", 10., vNumK},
	{"sim.cache.bandwidth.redirect", false, vBoolK},
	{"sim.cache.watermarks", false, vBoolK},
	{"sim.cache.watermark.high", 95., vNumK},
	{"sim.cache.watermark.low", 75., vNumK},
	{"sim.cache.stats.maxNumDayDiff", 6., vNumK},
	{"sim.cache.stats.deltaDaysStep", 7., vNumK},
	{"sim.coldstart", false, vBoolK},
	{"sim.coldstartnostats", false, vBoolK},
	{"sim.data", "", vPathK},
	{"sim.dump", false, vBoolK},
	{"sim.dumpfilename", "cache_dump.json.gz", vTextK},
	{"sim.dumpfilesandstats", true, vBoolK},
	{"sim.loaddump", false, vBoolK},
	{"sim.loaddumpfilename", "cache_dump.json.gz", vTextK},
	{"sim.log", false, vBoolK},
	{"sim.outputFolder", ".", vPathK},
	{"sim.window.start", int64(0), vIntK},
	{"sim.window.stop", int64(0), vIntK},
	{"sim.window.size", int64(7), vIntK},
	{"sim.cpuprofile", "", vTextK},
	{"sim.memprofile", "", vTextK},
	{"sim.outputupdatedelay", 2.4, vNumK},
	{"sim.weightfunc.name", "FuncAdditiveExp", vTextK},
	{"sim.weightfunc.alpha", 1., vNumK},
	{"sim.weightfunc.beta", 1., vNumK},
	{"sim.weightfunc.gamma", 1., vNumK},
	{"sim.ai.featuremap", nil, vPathK},
	{"sim.ai.dataset2TestPath", nil, vPathK},
	{"sim.ai.model", nil, vPathK},
	{"sim.ai.rl.type", "SCDL2", vTextK},
	{"sim.ai.rl.addition.featuremap", nil, vPathK},
	{"sim.ai.rl.eviction.featuremap", nil, vPathK},
	{"sim.ai.rl.eviction.k", int64(32), vIntK},
	{"sim.ai.rl.eviction.type", "onK", vTextK},
	{"sim.ai.rl.epsilon.start", 1., vNumK},
	{"sim.ai.rl.epsilon.decay", 0.0000042, vNumK},
	{"sim.ai.rl.epsilon.unleash", true, vBoolK},
	{"sim.ai.rl.addition.epsilon.start", nil, vNumK},
	{"sim.ai.rl.addition.epsilon.decay", nil, vNumK},
	{"sim.ai.rl.addition.epsilon.unleash", false, vBoolK},
	{"sim.ai.rl.eviction.epsilon.start", nil, vNumK},
	{"sim.ai.rl.eviction.epsilon.decay", nil, vNumK},
	{"sim.ai.rl.eviction.epsilon.unleash", false, vBoolK},
}

type vMain struct {
	dir string // of the configuration
	set map[string]interface{}
	all bool // all keys are set: their values vary together
	one int
}

// of: one of several values of a key
func (m *vMain) of(k string, n int) int {
	if m.all {
		return m.one % n
	}
	return vChoice(k, n)
}

func (m *vMain) num(k string) float64 {
	v, ok := m.set[strings.ToLower(k)]
	if !ok {
		v = vDefault(k)
	}
	if v == nil {
		return 0
	}
	return v.(float64)
}

func (m *vMain) whole(k string) int64 {
	if v, ok := m.set[strings.ToLower(k)]; ok {
		return v.(int64)
	}
	return vDefault(k).(int64)
}

func (m *vMain) truth(k string) bool {
	if v, ok := m.set[strings.ToLower(k)]; ok {
		return v.(bool)
	}
	return vDefault(k).(bool)
}

func (m *vMain) text(k string) string {
	if v, ok := m.set[strings.ToLower(k)]; ok {
		return v.(string)
	}
	return vDefault(k).(string)
}

// path: what the configuration gives is relative to its own folder; nothing stays nothing, unless there is a default
func (m *vMain) path(k string) string {
	v, ok := m.set[strings.ToLower(k)]
	if !ok {
		v = vDefault(k)
	}
	if v == nil {
		return ""
	}
	if s := v.(string); filepath.IsAbs(s) {
		return s
	}
	return filepath.Join(m.dir, v.(string))
}

// agent: the epsilon of an agent, which is the common one unless it has its own
func (m *vMain) agent(a, what string) float64 {
	if v, ok := m.set["sim.ai.rl."+a+".epsilon."+what]; ok {
		return v.(float64)
	}
	return m.num("sim.ai.rl.epsilon." + what)
}

func vDefault(k string) interface{} {
	for _, x := range vKeys {
		if x.name == k {
			return x.def
		}
	}
	panic("no such key " + k)
}

// draw: a value for a key
func (m *vMain) draw(i int) {
	k := vKeys[i]
	var v interface{}
	switch k.kind {
	case vNumK:
		v = vFloat(k.name, 0, 1<<20, 4)
		switch k.name {
		case "sim.cache.size.value", "sim.cache.bandwidth.value": // in the name of the folder
			v = []float64{10, 2000, 0.5}[m.of(k.name, 3)]
		case "sim.weightfunc.alpha", "sim.weightfunc.beta", "sim.weightfunc.gamma":
			v = []float64{0.25, 100.125}[m.of(k.name, 2)]
		}
	case vIntK:
		v = vInt(k.name, -1000, 1<<40)
	case vBoolK:
		v = vBool(k.name)
	case vTextK:
		v = fmt.Sprintf("t%d", i)
		if k.name == "sim.cache.size.unit" {
			v = []string{"g", "P"}[m.of(k.name, 2)]
		}
		if k.name == "sim.ai.rl.type" {
			v = []string{"SCDL", "SCDL2"}[m.of(k.name, 2)]
		}
	case vPathK:
		v = []string{fmt.Sprintf("../p%d", i), fmt.Sprintf("sub/p%d.json", i), fmt.Sprintf("/verif-abs/p%d", i)}[m.of("path", 3)]
		if k.name == "sim.outputFolder" {
			v = []string{"../out", "results", filepath.Join(m.dir, "absolute")}[m.of("path", 3)]
		}
	}
	m.set[strings.ToLower(k.name)] = v
}

// vhConfiguration: keys==0: any one key is set besides the type of the cache; keys==1: all of them are; keys==2: none.
func vhConfiguration() {
	wd := vTmpDir()
	wd, _ = os.Getwd()
	m := &vMain{dir: wd + "/conf", set: map[string]interface{}{}}
	if err := os.Mkdir(m.dir, 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(m.dir+"/here.yml", []byte("sim:\n"), 0o644); err != nil {
		panic(err)
	}
	kinds := []string{"lru", "weightFunLRU", "aiRL", "infinite"}
	kind := kinds[vChoice("cache", len(kinds))]
	m.set["sim.cache.type"] = kind
	region := []string{"all", "it", "us", ""}[vChoice("region", 4)]
	if region != "" {
		m.set["sim.region"] = region
	} else {
		region = "all"
	}
	m.set["sim.type"] = "normal"
	switch vConf("keys") {
	case 0:
		m.draw(vChoice("key", len(vKeys)))
	case 1:
		m.all, m.one = true, vChoice("values", 6)
		for i := range vKeys {
			m.draw(i)
		}
	}
	vviper = &vViper{set: m.set, def: map[string]interface{}{}}
	vran = &vRun{}

	// where the results go
	size := fmt.Sprintf("%0.0f%s", m.num("sim.cache.size.value"), strings.ToUpper(m.text("sim.cache.size.unit")))
	band := fmt.Sprintf("%0.0fGbit", m.num("sim.cache.bandwidth.value"))
	base := strings.Join([]string{kind, size, band, region}, "_")
	switch kind {
	case "weightFunLRU":
		base = fmt.Sprintf("%s_%s_%0.2f_%0.2f_%0.2f", kind, m.text("sim.weightfunc.name"), m.num("sim.weightfunc.alpha"), m.num("sim.weightfunc.beta"), m.num("sim.weightfunc.gamma"))
	case "aiRL":
		ai := m.text("sim.ai.rl.type")
		if ai == "SCDL2" {
			ai += "-" + m.text("sim.ai.rl.eviction.type")
		}
		base = strings.Join([]string{kind, ai, size, band, region}, "_")
	}
	out := filepath.Join(m.path("sim.outputFolder"), "run_full_normal", base)

	// earlier results
	before := vChoice("earlier results", 3)
	if before > 0 {
		if err := os.MkdirAll(out, 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(out+"/simulation_results.csv", []byte(strings.Repeat("x", []int{0, 600, 601}[before])), 0o644); err != nil {
			panic(err)
		}
	}

	cmd := simCommand()
	cmd.Run(cmd, []string{"conf/here.yml"})

	steps := strings.Join(vran.steps, " ")
	if before == 2 && !m.truth("sim.overwrite") {
		vAssert(steps == "", "results are not overwritten unless the configuration says so")
		vCover("kept")
		return
	}
	if region == "it" || region == "us" {
		vAssert(steps == "create init bandwidth region simulate" || steps == "create init region bandwidth simulate", "a simulation is created, initialised and run once")
		vAssert(vran.region == region, "the region of the cache")
	} else {
		vAssert(steps == "create init bandwidth simulate", "a simulation is created, initialised and run once")
	}
	vCover("simulated")
	vAssert(vran.wd == out, "the results go to the folder of the simulation")
	vAssert(vran.kind == kind && vran.size == m.num("sim.cache.size.value") && vran.unit == m.text("sim.cache.size.unit"), "type and size of the cache")
	vAssert(vran.wf == m.text("sim.weightfunc.name"), "the weight function")
	wfp := cache.WeightFunctionParameters{Alpha: m.num("sim.weightfunc.alpha"), Beta: m.num("sim.weightfunc.beta"), Gamma: m.num("sim.weightfunc.gamma")}
	vAssert(vran.wfp == wfp, "parameters of the weight function")
	vAssert(vran.bandwidth == m.num("sim.cache.bandwidth.value"), "the bandwidth of the cache")

	i := vran.init
	vAssert(i.Log == m.truth("sim.log") && i.RandSeed == m.whole("sim.seed"), "log and seed")
	vAssert(i.RedirectReq == m.truth("sim.cache.bandwidth.redirect"), "redirection of requests")
	vAssert(i.Watermarks == m.truth("sim.cache.watermarks") && i.HighWatermark == m.num("sim.cache.watermark.high") && i.LowWatermark == m.num("sim.cache.watermark.low"), "watermarks")
	vAssert(i.MaxNumDayDiff == m.num("sim.cache.stats.maxNumDayDiff") && i.DeltaDaysStep == m.num("sim.cache.stats.deltaDaysStep"), "days of the file statistics")
	vAssert(i.FunctionTypeString == m.text("sim.weightfunc.name") && i.WfParams == wfp, "the weight function of the cache")
	vAssert(i.AIFeatureMap == m.path("sim.ai.featuremap"), "feature map")
	vAssert(i.AIModel == m.path("sim.ai.model"), "model")
	vAssert(i.Dataset2TestPath == m.path("sim.ai.dataset2TestPath"), "dataset to test")
	vAssert(i.AIRLType == m.text("sim.ai.rl.type") && i.EvictionAgentType == m.text("sim.ai.rl.eviction.type") && i.AIRLEvictionK == m.whole("sim.ai.rl.eviction.k"), "type of the agents")
	vAssert(i.AIRLAdditionFeatureMap == m.path("sim.ai.rl.addition.featuremap"), "feature map of the addition agent")
	vAssert(i.AIRLEvictionFeatureMap == m.path("sim.ai.rl.eviction.featuremap"), "feature map of the eviction agent")
	vAssert(i.AIRLAdditionEpsilonStart == m.agent("addition", "start") && i.AIRLAdditionEpsilonDecay == m.agent("addition", "decay"), "epsilon of the addition agent")
	vAssert(i.AIRLEvictionEpsilonStart == m.agent("eviction", "start") && i.AIRLEvictionEpsilonDecay == m.agent("eviction", "decay"), "epsilon of the eviction agent")
	all := m.truth("sim.ai.rl.epsilon.unleash")
	vAssert(i.AIRLAdditionEpsilonUnleash == vOr(all, m.truth("sim.ai.rl.addition.epsilon.unleash")), "unleashed epsilon of the addition agent")
	vAssert(i.AIRLEvictionEpsilonUnleash == vOr(all, m.truth("sim.ai.rl.eviction.epsilon.unleash")), "unleashed epsilon of the eviction agent")

	p := vran.par
	vAssert(p.DataPath == m.path("sim.data"), "the data that are simulated")
	vAssert(p.OutFile == "simulation_results.csv" && p.ResultRunStatsName == "simulation_run_stats.json" && p.BaseName == base, "names of the results")
	vAssert(p.Dump == m.truth("sim.dump") && p.DumpFilesAndStats == m.truth("sim.dumpfilesandstats") && p.DumpFileName == m.text("sim.dumpfilename") && p.DumpFilename == m.text("sim.dumpfilename"), "the dump that is written")
	vAssert(p.LoadDump == m.truth("sim.loaddump") && p.LoadDumpFileName == m.text("sim.loaddumpfilename"), "the dump that is loaded")
	vAssert(p.ColdStart == m.truth("sim.coldstart") && p.ColdStartNoStats == m.truth("sim.coldstartnostats"), "cold start")
	vAssert(int64(p.WindowSize) == m.whole("sim.window.size") && int64(p.WindowStart) == m.whole("sim.window.start") && int64(p.WindowStop) == m.whole("sim.window.stop"), "windows of the simulation")
	vAssert(p.OutputUpdateDelay == m.num("sim.outputupdatedelay"), "delay of the output")
	vAssert(p.CPUprofile == m.text("sim.cpuprofile") && p.MEMprofile == m.text("sim.memprofile"), "profiles")
	vAssert(p.AIRLEpsilonStart == m.num("sim.ai.rl.epsilon.start") && p.AIRLEpsilonDecay == m.num("sim.ai.rl.epsilon.decay"), "epsilon of the simulation")
	var rec, typ cache.Filter
	switch region {
	case "us":
		rec, typ = cache.UsMINIAODNOT1andT3{}, cache.UsDataMcTypes{}
	case "it":
		typ = cache.ItDataMcTypes{}
	}
	vAssert(p.RecordFilter == rec && p.DataTypeFilter == typ, "filters of the region")
	vObserve("base", base)
}

// vhNoConfiguration: without its configuration file nothing is simulated.
func vhNoConfiguration() {
	wd := vTmpDir()
	wd, _ = os.Getwd()
	if err := os.Mkdir(wd+"/conf", 0o755); err != nil {
		panic(err)
	}
	if vChoice("another file", 2) == 1 {
		if err := os.WriteFile(wd+"/conf/there.yml", []byte("sim:\n"), 0o644); err != nil {
			panic(err)
		}
	}
	if vChoice("elsewhere", 2) == 1 {
		if err := os.WriteFile(wd+"/here.yml", []byte("sim:\n"), 0o644); err != nil {
			panic(err)
		}
	}
	vviper = &vViper{set: map[string]interface{}{}, def: map[string]interface{}{}}
	vran = &vRun{}
	cmd := simCommand()
	vAssert(cmd.Args(cmd, nil) != nil, "a configuration is required")
	vAssert(cmd.Args(cmd, []string{"conf/here.yml"}) == nil, "a configuration is accepted")
	failed := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				failed = true
			}
		}()
		cmd.Run(cmd, []string{"conf/here.yml"})
	}()
	vAssert(failed && len(vran.steps) == 0, "without its configuration nothing is simulated")
	vCover("refused")
}

var _ = viper.New
