#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decide one property on /repo's current working tree
# check.sh replay FILE                 re-execute a replay file
# check.sh setup                       build everything once (warms the build cache)
# Everything is rebuilt from /repo's working tree; nothing is written to /repo.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
for d in /opt/veriftools/go1.27.3/bin; do [ -d "$d" ] && PATH="$d:$PATH"; done
export PATH GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=1 GO111MODULE=on
seed=${VERIF_SEED:-1}
fail() { echo "check error: $*" >&2; exit 3; }

what=${1:-}
[ -n "$what" ] || fail "usage: check.sh PROPERTY [quick|thorough] | replay FILE | setup"
tier=${2:-${VERIF_TIER:-quick}}

work=$(mktemp -d /tmp/verif-sim.XXXXXX) || fail "no scratch directory"
cleanup() { case "$work" in /tmp/verif-sim.??????) rm -rf "$work";; esac; }
trap cleanup EXIT
trap 'exit 3' INT TERM

(cd "$here/instrument" && go build -o "$work/instrument" .) || fail "the instrumenter does not build"
"$work/instrument" -repo "$repo" -out "$work/o" -rt "$here/rt" -harness "$here/harness" || fail "instrumentation failed"
mod=$(cat "$work/o/module.txt")
build() { # output, extra flags
  (cd "$repo" && go build -overlay "$work/o/overlay.json" -o "$1" "${@:2}" ./internal/verifsim/harness)
}
build "$work/h" || fail "the instrumented tree does not build"

race=""
need_race=0
case "$what" in
  C05|C12|C16|setup) need_race=1;;
  replay) grep -q '"race_build": true' "${2:-/dev/null}" && need_race=1;;
esac
if [ $need_race = 1 ]; then
  # (the experiment must be off: the specialised allocators the compiler calls from packages compiled
  # without -race skip the race detector's bookkeeping, which makes it report reused memory)
  GOEXPERIMENT=nosizespecializedmalloc build "$work/hr" -race -gcflags="$mod/internal/verifsim/...=-race=false" || fail "the race-detector build fails"
  race="$work/hr"
fi

case "$what" in
  setup) echo "build ok"; exit 0;;
  replay) "$work/h" -replay "${2:?file}" -race "$race"; exit $?;;
esac
mkdir -p "$here/evidence" "$here/replays"
"$work/h" -prop "$what" -tier "$tier" -seed "$seed" -race "$race" -sites "$work/o/sites.txt" \
  -evidence "$here/evidence/$what.json" -replays "$here/replays" ${VERIF_ARGS:-}
exit $?
