#!/bin/bash
# seedtest.sh ID...: apply each planted change to /repo, build, test, run its demonstration and the check of its property; undo it.
cd /verif || exit 1
. /opt/vp/env.sh
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo checkout -q -- .
  t=$(mktemp -d)
  cp -r "$d" "$t/s"; rm -f "$t/s/patch.diff" "$t/s/meta.json"
  (cd /repo && bash "$t/s/demo.sh" >"$t/clean.log" 2>&1); c=$?
  if ! git -C /repo apply "$d/patch.diff"; then echo "$id: patch does not apply"; continue; fi
  b=0; t0=0
  if [ -z "$FAST" ]; then
    bash /opt/vp/build.sh >"$t/build.log" 2>&1; b=$?
    bash /opt/vp/test.sh "$t/out.json" >/dev/null 2>&1
    t0=$(python3 - "$t/out.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def passed(x):
    for k in ('stable','stable_tests','passed','pass','tests'):
        if k in x:
            v=x[k]
            if isinstance(v,dict): return {n for n,s in v.items() if s in ('pass','passed',True)}
            return set(v)
    return {n for n,s in x.items() if s in('pass','passed')}
print(len(passed(b)-passed(o)))
P
)
  fi
  (cd /repo && bash "$t/s/demo.sh" >"$t/bug.log" 2>&1); m=$?
  r=""
  for p in ${PROPS:-$prop}; do
    s=$(date +%s)
    bash tools/check.sh "$p" quick >"$t/check.log" 2>&1; k=$?
    v=$(grep -c "^VIOLATION property=$p" "$t/check.log")
    r="$r $p:exit=$k,violations=$v,$(($(date +%s)-s))s"
    [ "$k" = 1 ] || [ -z "$SHOW" ] || tail -20 "$t/check.log"
    [ -z "$SHOW" ] || grep -A3 ^VIOLATION "$t/check.log" | head -8
  done
  git -C /repo checkout -q -- .
  echo "$id: clean demo=$c build=$b lost tests=$t0 demo=$m check$r"
  [ $c = 0 ] || tail -15 "$t/clean.log"
  [ $m != 0 ] || tail -5 "$t/bug.log"
  rm -rf "$t"
done
