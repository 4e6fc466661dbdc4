#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
# Builds the harness variants the property needs from /repo's working tree in a scratch directory and runs the check.
set -u
PROP=$1
TIER=${2:-quick}
SEED=${VERIF_SEED:-1}
VERIF=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOWORK=off GO111MODULE=on
D=$(mktemp -d "${TMPDIR:-/tmp}/rvcheck.XXXXXX") || exit 2
trap 'rm -rf "$D"' EXIT
trap 'exit 2' INT TERM
H=$VERIF/harness
cd "$H" || exit 2

go build -o "$D/instr" ./instr >"$D/instr.log" 2>&1 || { cat "$D/instr.log"; echo "check.sh: cannot build the instrumenter" >&2; exit 2; }

# instrumented NAME [options]: falls back to instrumenting atomic operations only
instrumented() {
  local name=$1 level meta
  shift
  for level in 2 1; do
    rm -rf "$D/ov-$name"
    meta=$("$D/instr" -src /repo -out "$D/ov-$name" -level $level "$@" 2>"$D/$name.log") || continue
    go build -overlay "$D/ov-$name/overlay.json" -ldflags "-X main.buildName=$name -X main.buildMeta=$meta" -o "$D/rv-$name" ./cmd/rv >>"$D/$name.log" 2>&1 && return 0
  done
  return 1
}
direct() {
  local name=$1 tags=$2
  go build -tags "$tags" -ldflags "-X main.buildName=$name" -o "$D/rv-$name" ./cmd/rv >"$D/$name.log" 2>&1
}
# raced NAME [options]: with the race detector, or without it where that cannot be built or does not run
raced() {
  local name=$1 meta ov
  shift
  if [ $# -gt 0 ]; then
    meta=$("$D/instr" -src /repo -out "$D/ov-$name" -level 0 "$@" 2>"$D/$name.log") || return 1
    ov="-overlay $D/ov-$name/overlay.json"
  fi
  CGO_ENABLED=1 go build -race ${ov:-} -ldflags "-X main.buildName=$name -X main.buildMeta=${meta:-}" -o "$D/rv-$name" ./cmd/rv >>"$D/$name.log" 2>&1 &&
    "$D/rv-$name" builds "$PROP" >/dev/null 2>>"$D/$name.log" && return 0
  go build ${ov:-} -ldflags "-X main.buildName=$name -X main.buildMeta=${meta:-}" -o "$D/rv-$name" ./cmd/rv >>"$D/$name.log" 2>&1
}
make_one() {
  case $1 in
  tiny) instrumented tiny -shift 12 -maxblocks 16384 -epoch 6 ;;
  std) instrumented std ;;
  plain) direct plain "" ;;
  race) raced race ;;
  racetiny) raced racetiny -shift 12 -maxblocks 16384 -epoch 6 ;;
  bs8) direct bs8 blocksize8 ;;
  bs16) direct bs16 blocksize16 ;;
  esac
}
# the first build fills the cache for the others
make_one plain || { cat "$D/plain.log"; echo "check.sh: /repo does not build" >&2; exit 2; }
NEED=$("$D/rv-plain" builds "$PROP") || { echo "check.sh: unknown property $PROP" >&2; exit 2; }
for n in $NEED; do [ "$n" = plain ] || make_one "$n" & done
wait
BINS=""
for n in $NEED; do
  [ -x "$D/rv-$n" ] || { cat "$D/$n.log"; echo "check.sh: variant $n does not build" >&2; exit 2; }
  BINS="$BINS$n=$D/rv-$n,"
done
mkdir -p "$D/run" "$VERIF/evidence"
"$D/rv-plain" check -prop "$PROP" -tier "$TIER" -seed "$SEED" -bins "$BINS" -tmp "$D/run" -verif "$VERIF"
