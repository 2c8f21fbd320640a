#!/bin/bash
# usage: check.sh PROP quick|thorough | check.sh build | check.sh replay FILE
# Builds the explorer against /repo's current working tree, then runs it.
set -u
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GONOSUMDB='*' GOFLAGS=-mod=mod GONOSUMCHECK=1 GOSUMDB=off
VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR
: "${VERIF_SEED:=1}"; export VERIF_SEED
W="$(mktemp -d /tmp/verif-mc.XXXXXX)" || exit 2
trap 'rm -rf -- "$W"' EXIT
trap 'exit 2' INT TERM HUP
mkdir -p "$VERIF_DIR/evidence" "$VERIF_DIR/replays"
cp "$VERIF_DIR/mc/go.mod" "$W/go.mod"
cat "$VERIF_DIR/mc/go.sum" /repo/go.sum 2>/dev/null | sort -u > "$W/go.sum"
build() { # build OUT [flags...]
  local out="$1"; shift
  (cd "$VERIF_DIR/mc" && go build -modfile="$W/go.mod" -o "$out" "$@" .) || { echo "check.sh: build failed" >&2; exit 2; }
}
# build_sched: the explorer with the code under test instrumented with
# scheduling points, once as it is and once under the race detector
build_sched() {
  local bn; bn="$(cd "$VERIF_DIR/mc" && go list -modfile="$W/go.mod" -m -f '{{.Dir}}' github.com/dusk-network/bn256)" || exit 2
  cp -r "$bn" "$W/bn256" && chmod -R u+w "$W/bn256" && mkdir "$W/src" || exit 2
  (cd "$VERIF_DIR/mc" && go run -modfile="$W/go.mod" ./instr "$W/src" "$W/overlay.json" /repo "$W/bn256:MakeAffine") || exit 2
  echo "replace github.com/dusk-network/bn256 => $W/bn256" >> "$W/go.mod"
  build "$W/mc" -overlay "$W/overlay.json"
  build "$W/mcr" -race -tags generic -overlay "$W/overlay.json"
  export VERIF_RACE_BIN="$W/mcr"
}
case "${1:-}" in
  build) build "$W/mc"; build_sched; exit 0 ;;
  replay)
    if grep -q '"property": "C32"' "$2"; then build_sched; else build "$W/mc"; fi
    if grep -q '"case": "monitor/' "$2"; then GORACE="halt_on_error=1 exitcode=1" "$W/mcr" replay "$2"; else "$W/mc" replay "$2"; fi
    exit $? ;;
esac
P="$1"; T="${2:-${VERIF_TIER:-quick}}"
if [ "$P" = C32 ]; then build_sched; else build "$W/mc"; fi
"$W/mc" check "$P" "$T"
exit $?
