#!/bin/bash
# usage: check.sh <property> [quick|thorough]      run the check
#        check.sh --replay <file>                  replay a violation
#        check.sh --build [race]                   build only, print the binary
# Builds the simulator from the working tree in ${REPO:-/repo} every time.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
REPO="${REPO:-/repo}"
GOROOT_SIM=/opt/veriftools/go1.26.10
[ -x "$GOROOT_SIM/bin/go" ] || GOROOT_SIM="$(go env GOROOT)"
export PATH="$GOROOT_SIM/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS= CGO_ENABLED=1 GOROOT="$GOROOT_SIM"
export GOMODCACHE="${GOMODCACHE:-$(go env GOMODCACHE)}"
B="${SIM_BUILD:-$V/.build}"
export GOCACHE="$B/gocache"
unset GORACE GOTRACEBACK NO_COLOR FORCE_COLOR

build() { # mode
  local mode="$1" W="$B/$1"
  mkdir -p "$W" || exit 3
  local race=""; [ "$mode" = race ] && race="-race"
  ( cd "$V/sim/instr" && CGO_ENABLED=0 go build -trimpath -o "$B/instr" . ) >&2 || { echo "check: cannot build the instrumenter" >&2; exit 3; }
  "$B/instr" -repo "$REPO" -verif "$V/sim" -out "$W/overlay" -goroot "$GOROOT_SIM" $race >&2 || { echo "check: instrumentation failed" >&2; exit 3; }
  local gc="-gcflags=all=-d=checkptr=0"
  ( cd "$REPO" && go build $race "$gc" -mod=readonly -buildvcs=false -overlay "$W/overlay/overlay.json" -ldflags=-checklinkname=0 -o "$W/zz_sim" ./zz_sim ) >&2 || { echo "check: build failed" >&2; exit 3; }
  if [ "$mode" = plain ]; then
    ( cd "$REPO" && go build "$gc" -mod=readonly -buildvcs=false -overlay "$W/overlay/overlay.json" -ldflags=-checklinkname=0 -o "$W/zz_jc" ./cmd/jc ) >&2 || { echo "check: build of jc failed" >&2; exit 3; }
  fi
  export SIM_JC="$W/zz_jc"
}

mode_of() { case "$1" in C10|C18) echo race;; *) echo plain;; esac; }

case "${1:-}" in
--build) build "${2:-plain}"; echo "$B/${2:-plain}/zz_sim"; exit 0;;
--replay)
  f="$2"
  m=plain; grep -q '"race_build": true' "$f" && m=race
  build $m; exec "$B/$m/zz_sim" replay -file "$f";;
esac
P="$1"; T="${2:-${VERIF_TIER:-quick}}"
M=$(mode_of "$P")
build "$M"
mkdir -p "$V/evidence" "$V/replays"
"$B/$M/zz_sim" run -prop "$P" -seed "${VERIF_SEED:-1}" -tier "$T" -evidence "$V/evidence/$P.json" \
  -replays "$V/replays" -known "$V/known-findings.txt" -howto "bash $V/check.sh --replay FILE" ${SIM_ARGS:-}
exit $?
