import os, subprocess, json, sys, shutil
R='/tmp/mk/repo'
def fresh():
    if not os.path.exists(R):
        subprocess.run(['git','clone','-q','/repo',R],check=True)
    subprocess.run(['git','-C',R,'fetch','-q'],check=True)
    subprocess.run(['git','-C',R,'reset','-q','--hard','origin/HEAD'],check=True)
DEMO='''#!/bin/bash
# Runs demo_test.go inside the package through an overlay; run with cwd /repo.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/o.json" <<O
{"Replace": {"$PWD/SIM/PKG/zz_demo_test.go": "$here/demo_test.go"}}
O
mkdir "$tmp/wd"
cd SIM && "$GO" test -c -vet=off -overlay "$tmp/o.json" -o "$tmp/demo.test" ./PKG && cd "$tmp/wd" && "$tmp/demo.test" -test.run '^TestDemo' -test.timeout 120s
'''
def seed(id, prop, file, edits, pkg, code, needs, breaks, sim='SmartCache/sim', demo=None, more=None):
    fresh()
    for f, eds in [(file, edits)] + (more or []):
        p=os.path.join(R,f); s=open(p).read()
        for o,n in eds:
            if isinstance(o,tuple):
                i=s.index(o[0]); a,b=s[:i],s[i:]
                assert o[1] in b,(id,o)
                s=a+b.replace(o[1],n,1); continue
            assert s.count(o)==1, (id,f,s.count(o),o)
            s=s.replace(o,n)
        open(p,'w').write(s)
        if f.endswith('.go'): subprocess.run(['gofmt','-l',p])
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True,check=True).stdout)
    open(d+'/demo.sh','w').write(demo or DEMO.replace('SIM',sim).replace('PKG',pkg))
    os.chmod(d+'/demo.sh',0o755)
    if code: open(d+('/demo_test.go' if not demo else '/demo.py'),'w').write(code)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
C='SmartCache/sim/cache/'
HEAD='''package cache

import (
	"testing"
	"simulator/v2/cache/functions"
)

var _ = functions.Additive

func mk(t, fun string, size float64, p InitParameters) Cache {
	if p.MaxNumDayDiff == 0 {
		p.MaxNumDayDiff, p.DeltaDaysStep = 1000, 1000
	}
	par := WeightFunctionParameters{Alpha: 1, Beta: 1, Gamma: 1}
	c := Create(t, size, "M", "FuncAdditive", par)
	if t == "weightFunLRU" {
		p.WfParams = par
		p.FunctionTypeString, p.WfType = "FuncAdditive", functions.Additive
	}
	InitInstance(t, c, p)
	return c
}

const dayS = int64(86400)

func req(c Cache, name int64, size float64, day int64) (added, redirected bool) {
	return GetFile(c, name, size, int64(1), 50., day*dayS, int64(3), int64(7), int64(2))
}

'''
