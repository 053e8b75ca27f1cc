#!/bin/bash
# check.sh <property> <quick|thorough> [further flags of the check command]
# Builds the checker of a property from the current trees of /verif and /repo and runs it.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
ID=$1 TIER=$2
shift 2
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -d "$d" ] && PATH=$d:$PATH; done
export PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOSUMDB=off CGO_ENABLED=0
export GOGC=${GOGC:-200}
case $ID in
  C14|C15|C16) CMD=checkprim ;;
  *) CMD=check ;;
esac
WORK=$(mktemp -d "${TMPDIR:-/tmp}/verifmc.XXXXXX") || exit 3
trap '[ -n "$WORK" ] && rm -rf "$WORK"' EXIT
cd "$ROOT/mc" || exit 3
FLAGS=()
build() {
  case $ID in
    C18|C21) # a copy of the repository's packages with yield points and controlled map iteration
      mkdir -p "$WORK/inst" && go run ./cmd/instrument -out "$WORK/inst" || return 1
      FLAGS=(-overlay "$WORK/inst/overlay.json") ;;
  esac
  if [ "$ID" = C18 ]; then # and a build under the race detector
    CGO_ENABLED=1 go build -race -o "$WORK/race" ./cmd/check || return 1
    export VERIFMC_RACE=$WORK/race
  fi
  go build "${FLAGS[@]}" -o "$WORK/check" "./cmd/$CMD"
}
if ! build > "$WORK/err" 2>&1; then
  cat "$WORK/err" >&2
  echo "check.sh: the checker of $ID does not build against /repo" >&2
  exit 3
fi
"$WORK/check" -root "$ROOT" -property "$ID" -tier "$TIER" "$@"
