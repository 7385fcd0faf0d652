#!/bin/bash
# check.sh ID quick|thorough      decide property ID on /repo's working tree
# check.sh replay FILE            re-run a recorded violation
# check.sh build DIR              leave the model checker in the new directory DIR
# Exit: 0 held, 1 violation, 2 no answer.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export VERIF_DIR=$HERE
REPO=${MC_REPO:-/repo}
MC=$HERE/mc
OWN=1
if [ "${1:-}" = build ]; then W=$(realpath -m "$2"); mkdir "$W" || exit 2; OWN=0; else W=$(mktemp -d /tmp/vmc.XXXXXXXX); fi
[ -n "$W" ] && [ "$W" != / ] || exit 2
cleanup() { if [ $OWN = 1 ]; then rm -rf "$W"; fi; }
trap cleanup EXIT
fail() { echo "check: $*" >&2; [ -f "$W/log" ] && tail -40 "$W/log" >&2; exit 2; }

build() {
  PF=$(cd "$REPO" && GOFLAGS=-mod=readonly go list -m -f '{{.Dir}}' github.com/weedbox/pokerface 2>>"$W/log") || fail "cannot locate pokerface"
  PT=$(cd "$REPO" && GOFLAGS=-mod=readonly go list -m -f '{{.Dir}}' github.com/weedbox/pokertable 2>>"$W/log") || fail "cannot locate pokertable"
  SS=$(cd "$REPO" && GOFLAGS=-mod=readonly go list -m -f '{{.Dir}}' github.com/weedbox/syncsaga 2>>"$W/log") || fail "cannot locate syncsaga"
  (cd "$MC/instr" && GOFLAGS=-mod=mod go build -o "$W/instr" .) >>"$W/log" 2>&1 || fail "instrumenter does not build"
  mkdir -p "$W/repo" "$W/harness"
  cp "$REPO/go.mod" "$REPO/go.sum" "$W/repo/" || fail "no go.mod"
  (cd "$REPO" && GOFLAGS=-mod=readonly "$W/instr" "$W/repo" "$REPO" $(GOFLAGS=-mod=readonly go list -f '{{if .GoFiles}}{{.Dir}}{{end}}' ./... | sed "s#^$REPO#.#")) >>"$W/log" 2>&1 || fail "instrumentation failed"
  cp -r "$PF" "$W/pokerface" && chmod -R u+w "$W/pokerface"
  (cd "$W/pokerface" && GOFLAGS=-mod=mod "$W/instr" "$W/pokerface" "$W/pokerface" ./regulator) >>"$W/log" 2>&1 || fail "instrumentation of the regulator failed"
  cp -r "$PT" "$W/pokertable" && chmod -R u+w "$W/pokertable"
  cp -r "$SS" "$W/syncsaga" && chmod -R u+w "$W/syncsaga"
  # the libraries' table engine, at the granularity of its locks, timers and goroutines
  G=github.com/weedbox
  (cd "$REPO" && VRT_NOPOINTS=1 GOFLAGS=-mod=readonly "$W/instr" "$W" "$REPO" $G/pokerface=pokerface $G/pokertable=pokertable $G/pokertable/open_game_manager=pokertable/open_game_manager $G/pokertable/seat_manager=pokertable/seat_manager $G/syncsaga=syncsaga) >>"$W/log" 2>&1 || fail "instrumentation of the table engine failed"
  cp "$MC"/harness/*.go "$W/harness/"
  cp "$REPO/go.sum" "$W/harness/go.sum"
  {
    echo "module verif/harness"
    echo "go 1.21"
    echo "require ("
    sed -n 's/^[[:space:]]*\(github[^ ]* v[^ ]*\|gopkg[^ ]* v[^ ]*\).*/\1/p' "$REPO/go.mod"
    echo "github.com/weedbox/pokercompetition v0.0.0"
    echo "verif/vrt v0.0.0"
    echo ")"
    echo "replace github.com/weedbox/pokercompetition => ../repo"
    echo "replace github.com/weedbox/pokerface => ../pokerface"
    echo "replace github.com/weedbox/pokertable => ../pokertable"
    echo "replace github.com/weedbox/syncsaga => ../syncsaga"
    echo "replace github.com/weedbox/timebank => $MC/shim/timebank"
    echo "replace github.com/google/uuid => $MC/shim/uuid"
    echo "replace verif/vrt => $MC/vrt"
  } > "$W/harness/go.mod"
  (cd "$W/harness" && GOFLAGS=-mod=mod go build -trimpath -o "$W/mc" .) >>"$W/log" 2>&1 || fail "the instrumented tree does not build"
}

case "${1:-}" in
  build) build; exit 0;;
  replay) build; "$W/mc" -replay "$2"; exit $?;;
  "") echo "usage: check.sh ID quick|thorough" >&2; exit 2;;
esac
build
mkdir -p "$HERE/evidence"
"$W/mc" -prop "$1" -tier "${2:-quick}" -evidence "$HERE/evidence" -known "$HERE/known-findings.txt" ${MC_ARGS:-}
exit $?
