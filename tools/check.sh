#!/bin/bash
# check.sh PROPERTY quick|thorough [HARNESS]   run one check (builds the engine from /verif/engine first if needed)
# check.sh replay FILE                         run a recorded counterexample against the real code
set -u
root=$(cd "$(dirname "$0")/.." && pwd)
export VERIF_ROOT=$root
export HOME=${HOME:-/root} LANG="${LANG:-C.UTF-8}"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOENV=off GO111MODULE=on GOFLAGS="-mod=mod -buildvcs=false"
case "${1:-}" in P*) exec python3-vt -B "$root/pysym/run.py" check "$@";; esac
if [ "${1:-}" = replay ] && grep -q '"py": true' "$2"; then exec python3-vt -B "$root/pysym/run.py" replay "$2"; fi
go=/opt/veriftools/go1.27.3/bin/go
[ -x "$go" ] || go=go
bin=$root/.build/engine
stamp=$(cat "$root"/engine/*.go "$root"/engine/go.mod "$root"/engine/go.sum | sha256sum | cut -c1-32)
if [ ! -x "$bin" ] || [ "$(cat "$root/.build/stamp" 2>/dev/null)" != "$stamp" ]; then
    mkdir -p "$root/.build"
    tmp=$(mktemp -d "$root/.build/tmp.XXXXXX") || exit 2
    (cd "$root/engine" && "$go" build -trimpath -o "$tmp/engine" .) || { rm -rf "$tmp"; exit 2; }
    mv -f "$tmp/engine" "$bin" && rm -rf "$tmp"
    echo "$stamp" > "$root/.build/stamp"
fi
if [ "${1:-}" = build ]; then exit 0; fi
if [ "${1:-}" = replay ]; then exec "$bin" replay "$2"; fi
exec "$bin" check "$@"
