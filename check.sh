#!/bin/bash
# check.sh ID quick|thorough      decide one property on /repo's working tree
# check.sh replay FILE            re-execute a recorded violation
# Everything is rebuilt from /repo; nothing in /repo is written.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
umask 022
T="$(mktemp -d "${TMPDIR:-/tmp}/dst.XXXXXX")" || exit 2
trap 'rm -rf "$T"' EXIT
cd "$here" || exit 2

build() { # build RACEFLAG
  note="instrumented"
  mkdir -p "$T/src"
  if go build -o "$T/instr" ./instr >"$T/log" 2>&1 && "$T/instr" -out "$T/src" >"$T/ilog" 2>&1 \
     && go build $1 -overlay "$T/src/overlay.json" -o "$T/dst" ./cmd/dst >"$T/olog" 2>&1; then
    return 0
  fi
  note="plain build: the instrumented one failed: $(cat "$T/log" "$T/ilog" "$T/olog" 2>/dev/null | head -c 600)"
  echo "$note" >&2
  go build $1 -o "$T/dst" ./cmd/dst >&2 || return 1
  rm -f "$T/src/sites.json"
}

case "${1:-}" in
setup)
  # warms the build cache; every check builds again from /repo
  build "" && build "-race" || { echo "cannot build"; exit 1; }
  echo "builds: $note"; exit 0
  ;;
replay)
  f="$2"; case "$f" in /*) ;; *) f="$OLDPWD/$f";; esac
  race=""; grep -q '"property": "C07"' "$f" && race="-race"
  build "$race" || { echo "cannot build"; exit 2; }
  "$T/dst" replay "$f"; exit $?
  ;;
C[0-9][0-9])
  id="$1"; tier="${2:-${VERIF_TIER:-quick}}"; seed="${VERIF_SEED:-1}"
  shift; [ $# -gt 0 ] && shift
  race=""; [ "$id" = C07 ] && race="-race"
  build "$race" || { echo "cannot build the simulator against /repo" >&2; exit 2; }
  TMPDIR="$T" "$T/dst" drive -prop "$id" -tier "$tier" -seed "$seed" -sites "$T/src/sites.json" \
    -evidence "$here/evidence/$id.json" -out "$here/out" -findings "$here/known-findings.json" -note "$note" "$@"
  exit $?
  ;;
*) echo "usage: check.sh C01..C13 quick|thorough | replay FILE | setup" >&2; exit 2;;
esac
