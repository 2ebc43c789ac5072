package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

// native is the real package compiled with the same harness, used to replay models.
type native struct {
	key   string
	dir   string // scratch
	bin   string
	err   error
	done  chan struct{}
	n     int
	mu    sync.Mutex
	build time.Duration
	wd    string
}

func goTool() string {
	if g := os.Getenv("VERIF_GO"); g != "" {
		return g
	}
	g := "/opt/veriftools/go1.27.3/bin/go"
	if _, err := os.Stat(g); err == nil {
		return g
	}
	return "go"
}

func goEnv(legacy bool) []string {
	e := []string{"GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOENV=off", "GOFLAGS=-mod=mod -buildvcs=false", "GO111MODULE=on", "HOME=/root", "LANG=C.UTF-8"}
	if legacy {
		e = append(e, "GO111MODULE=off", "GOFLAGS=")
	}
	return append(e, "PATH="+filepath.Dir(goTool())+":"+os.Getenv("PATH"))
}

// overlayFiles gives the harness sources of a group of harnesses: file name -> contents.
func overlayFiles(root, pkgName string, files []string, pkgDir string, rewrite []string) (map[string][]byte, error) {
	m, err := rewriteCalls(pkgDir, rewrite)
	if err != nil {
		return nil, err
	}
	m["zz_verif_api.go"] = []byte(strings.ReplaceAll(apiNative, "PKG", pkgName))
	for _, f := range files {
		b, err := os.ReadFile(filepath.Join(root, "harness", f))
		if err != nil {
			return nil, err
		}
		b = bytes.ReplaceAll(b, []byte("package PKG"), []byte("package "+pkgName))
		m["zz_verif_"+strings.TrimSuffix(filepath.Base(f), ".go")+"_h.go"] = b
	}
	return m, nil
}

var pkgClause = regexp.MustCompile(`(?m)^package\s+(\w+)`)

func packageName(dir string) (string, error) {
	l, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(l)
	for _, f := range l {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		if m := pkgClause.FindSubmatch(b); m != nil {
			return string(m[1]), nil
		}
	}
	return "", fmt.Errorf("no Go package in %s", dir)
}

func startNative(scratch, moduleDir, pkg string, ov map[string][]byte, funcs []string, useRand, legacy bool, n int) *native {
	nt := &native{dir: filepath.Join(scratch, fmt.Sprintf("native%d", n)), done: make(chan struct{})}
	nt.bin = filepath.Join(nt.dir, "replay.test")
	go func() {
		defer close(nt.done)
		t0 := time.Now()
		nt.err = nt.compile(moduleDir, pkg, ov, funcs, useRand, legacy)
		nt.build = time.Since(t0)
	}()
	return nt
}

var randMeth = regexp.MustCompile(`(?m)^func \(r \*Rand\) (Float64|Float32|Int63|Int31|Uint32|Uint64|Int|Intn|Int63n|Int31n|int31n)\((n (\w+))?\) (\w+) \{$`)

func (nt *native) compile(moduleDir, pkg string, ov map[string][]byte, funcs []string, useRand, legacy bool) error {
	if err := os.MkdirAll(nt.dir, 0o755); err != nil {
		return err
	}
	pkgDir := filepath.Join(moduleDir, pkg)
	name, err := packageName(pkgDir)
	if err != nil {
		return err
	}
	repl := map[string]string{}
	put := func(target, base string, data []byte) error {
		f := filepath.Join(nt.dir, base)
		repl[target] = f
		return os.WriteFile(f, data, 0o644)
	}
	for f, b := range ov {
		if err := put(filepath.Join(pkgDir, f), f, b); err != nil {
			return err
		}
	}
	t := strings.ReplaceAll(testNative, "PKG", name)
	var fl strings.Builder
	sort.Strings(funcs)
	last := ""
	for _, f := range funcs {
		if f != last {
			fmt.Fprintf(&fl, "\t%q: %s,\n", f, f)
		}
		last = f
	}
	t = strings.ReplaceAll(t, "FUNCS", fl.String())
	if useRand {
		t = strings.ReplaceAll(t, "RANDIMPORT", `vrand "math/rand"`)
		t = strings.ReplaceAll(t, "RANDHOOK", `vrand.VerifHook = func(kind string, n int64) (float64, int64, bool) {
		if vPos["rand"] >= len(vCur.Inputs["rand"]) {
			// beyond the recorded history: the generator is not consulted on the recorded path
			vPos["rand"]++
			return 0, 0, true
		}
		r := vNext("rand")
		switch kind {
		case "Float64":
			f, _ := r.Float64()
			return f / (1 << 30), 0, true
		case "Float32":
			f, _ := r.Float64()
			return f / (1 << 20), 0, true
		}
		return 0, r.Num().Int64(), true
	}
	defer func() { vrand.VerifHook = nil }()`)
		gr := filepath.Join(filepath.Dir(filepath.Dir(goTool())), "src/math/rand/rand.go")
		b, err := os.ReadFile(gr)
		if err != nil {
			return err
		}
		s := randMeth.ReplaceAllStringFunc(string(b), func(l string) string {
			m := randMeth.FindStringSubmatch(l)
			arg := "0"
			if m[2] != "" {
				arg = "int64(n)"
			}
			ret := m[4] + "(i)"
			if strings.HasPrefix(m[1], "Float") {
				ret = m[4] + "(f)"
			}
			return l + fmt.Sprintf("\n\tif VerifHook != nil {\n\t\tif f, i, ok := VerifHook(%q, %s); ok {\n\t\t\t_, _ = f, i\n\t\t\treturn %s\n\t\t}\n\t}", m[1], arg, ret)
		})
		s += "\n// VerifHook answers draws from a recorded history.\nvar VerifHook func(kind string, n int64) (float64, int64, bool)\n"
		if err := put(gr, "std_rand.go", []byte(s)); err != nil {
			return err
		}
	} else {
		t = strings.ReplaceAll(t, "RANDIMPORT", "")
		t = strings.ReplaceAll(t, "RANDHOOK", "")
	}
	if err := put(filepath.Join(pkgDir, "zz_verif_test.go"), "zz_verif_test.go", []byte(t)); err != nil {
		return err
	}
	// the repository's own tests are not part of the replay binary
	own, _ := filepath.Glob(filepath.Join(pkgDir, "*_test.go"))
	for _, f := range own {
		repl[f] = ""
	}
	oj, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ojf := filepath.Join(nt.dir, "overlay.json")
	if err := os.WriteFile(ojf, oj, 0o644); err != nil {
		return err
	}
	arg := "./" + pkg
	if pkg == "." || pkg == "" {
		arg = "."
	}
	cmd := exec.Command(goTool(), "test", "-c", "-vet=off", "-overlay", ojf, "-o", nt.bin, arg)
	cmd.Dir = moduleDir
	cmd.Env = append(os.Environ(), goEnv(legacy)...)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("replay build: %v: %s", err, tail(string(out), 2000))
	}
	return nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type natCase struct {
	Func   string
	Inputs map[string][]string
	Conf   map[string]interface{}
	Repeat int
}

type natOut struct {
	Outcome string
	Obs     []string
}

// run executes cases in one process; a process that dies early gives fewer results.
func (nt *native) run(cases []*natCase, tmo time.Duration) (outs []natOut, died string, err error) {
	<-nt.done
	if nt.err != nil {
		return nil, "", nt.err
	}
	nt.mu.Lock()
	nt.n++
	id := nt.n
	nt.mu.Unlock()
	wd := filepath.Join(nt.dir, fmt.Sprintf("run%d", id))
	if err := os.MkdirAll(wd, 0o755); err != nil {
		return nil, "", err
	}
	defer os.RemoveAll(wd)
	inF, outF := filepath.Join(wd, "in.json"), filepath.Join(wd, "out.jsonl")
	b, _ := json.Marshal(cases)
	if err := os.WriteFile(inF, b, 0o644); err != nil {
		return nil, "", err
	}
	sc := filepath.Join(wd, "scratch")
	os.MkdirAll(sc, 0o755)
	ctx, cancel := context.WithTimeout(context.Background(), tmo)
	defer cancel()
	cmd := exec.CommandContext(ctx, nt.bin, "-test.run", "^TestVerifReplay$", "-test.timeout", "0")
	cmd.Dir = sc
	cmd.Env = append(os.Environ(), "VERIF_IN="+inF, "VERIF_OUT="+outF, "VERIF_SCRATCH="+sc, "GOMEMLIMIT=2GiB")
	var ob bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &ob
	rerr := cmd.Run()
	if d, e := os.ReadFile(outF); e == nil {
		for _, l := range bytes.Split(d, []byte("\n")) {
			if len(l) == 0 {
				continue
			}
			var o natOut
			if json.Unmarshal(l, &o) == nil {
				outs = append(outs, o)
			}
		}
	}
	if len(outs) < len(cases) {
		switch {
		case ctx.Err() != nil:
			died = "hang"
		case strings.Contains(ob.String(), "all goroutines are asleep"):
			died = "deadlock"
		case rerr != nil:
			died = "exit:" + tail(strings.TrimSpace(ob.String()), 300)
		default:
			died = "exit"
		}
	}
	return outs, died, nil
}

// confirm replays one counterexample and tells how the real code fails on it.
func (nt *native) confirm(h *Harness, v *Violation, repeat int) (string, error) {
	c := &natCase{Func: h.Func, Inputs: v.Inputs, Conf: h.Conf, Repeat: repeat}
	outs, died, err := nt.run([]*natCase{c}, 25*time.Second)
	if err != nil {
		return "", err
	}
	if len(outs) == 0 {
		return died, nil
	}
	return outs[0].Outcome, nil
}
