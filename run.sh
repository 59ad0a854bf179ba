#!/bin/bash
# bash run.sh ID quick|thorough        runs one check
# bash run.sh ID replay FILE           runs one saved case again
# bash run.sh setup                    builds everything once
# Builds from /repo's working tree. Exit 0: held, 1: VIOLATION, 2: error of the check.
set -u
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO=/repo
export VERIF_DIR
export HOME="${HOME:-/root}" PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GO111MODULE=on GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOENV=off GOWORK=off
export GOCACHE="$VERIF_DIR/.cache/gocache" GOMODCACHE=/root/go/pkg/mod
unset GOFLAGS GOPATH GOOS GOARCH GODEBUG GOEXPERIMENT
ID="${1:?usage: run.sh ID quick|thorough|replay [FILE]}"
MODE="${2:-quick}"
REPLAY="${3:-}"
[ -n "$REPLAY" ] && REPLAY="$(realpath "$REPLAY")"
mkdir -p "$VERIF_DIR/.cache"
WORK="$(mktemp -d "$VERIF_DIR/.cache/run.XXXXXX")" || exit 2
trap 'rm -rf "$WORK"' EXIT
export VERIF_WORK="$WORK"

# The tree has no go.mod; lay one over it without touching it.
overlay() { # output, further entries: path, content ...
  local out="$1" l; shift
  {
    printf '{"Replace": {"%s": "%s"' "$REPO/go.mod" "$VERIF_DIR/harness/virtual/suriya.mod"
    [ -f "$WORK/fixes" ] && while IFS= read -r l; do printf ',\n %s' "$l"; done < "$WORK/fixes"
    while [ $# -gt 1 ]; do printf ',\n "%s": "%s"' "$1" "$2"; shift 2; done
    printf '}}\n'
  } > "$out"
}
export VERIF_OVERLAY="$WORK/overlay.json"
overlay "$VERIF_OVERLAY"
cd "$VERIF_DIR/harness" || exit 2

gobuild() { # output, package, extra flags
  local out="$1" pkg="$2" try; shift 2
  for try in 1 2 3 4 5; do
    go build -mod=readonly -buildvcs=false -overlay="$VERIF_OVERLAY" "$@" -o "$out" "$pkg" 2>"$WORK/gobuild.log" && return 0
    # unused imports and variables, which the repository's own build does not see
    python3 "$VERIF_DIR/harness/unused.py" "$WORK/gobuild.log" "$WORK/fixes" "$WORK" || break
    echo "note: built without unused imports or variables" >&2
    overlay "$VERIF_OVERLAY"
  done
  cat "$WORK/gobuild.log" >&2
  return 1
}

build_main() {
  if gobuild "$WORK/main" ./cmd/full 2>"$WORK/build.log"; then return 0; fi
  # The calendar-day part of the package does not compile: the arithmetic part
  # can still be checked on its own, as the repository's own build does.
  case " C01 C02 C03 C04 C05 C06 C07 C17 C18 C19 C20 C21 C22 C23 C24 C30 C36 C39 setup " in
    *" $ID "*) ;;
    *) cat "$WORK/build.log" >&2; return 1 ;;
  esac
  rm -f "$WORK/fixes"
  overlay "$VERIF_OVERLAY" $(for f in astro_moon cal_day calendar_event event half_moon major_event uposatha_moon; do echo "$REPO/$f.go" /nonexistent; done)
  sed -i 's|"/nonexistent"|""|' "$VERIF_OVERLAY"
  if go build -mod=readonly -buildvcs=false -overlay="$VERIF_OVERLAY" -o "$WORK/main" ./cmd/core 2>>"$WORK/build.log"; then
    echo "note: the full package does not compile, checking its arithmetic part only" >&2
    return 0
  fi
  cat "$WORK/build.log" >&2
  return 1
}
fail() { echo "HARNESS-ERROR: $*" >&2; exit 2; }

violation() { # what happened, file with the details, name
  mkdir -p "$VERIF_DIR/replays" "$VERIF_DIR/evidence"
  local R="$VERIF_DIR/replays/$ID-$3.json"
  python3 - "$ID" "$MODE" "${VERIF_SEED:-1}" "$2" "$R" "$VERIF_DIR/evidence/$ID.json" "$1" <<'P'
import sys,json
i,mode,seed,err,out,ev,what=sys.argv[1:]
s=open(err,errors='replace').read()[:6000]
json.dump({"property":i,"tier":mode,"seed":int(seed),"message":what,"stderr":s,
  "replay":"VERIF_SEED=%s bash run.sh %s %s"%(seed,i,mode)},open(out,'w'),indent=1)
json.dump({"property":i,"tier":mode,"seed":int(seed),"level":"exploration","wall_s":0,"violations":1,
  "coverage":{"evaluations":0,"distinct_nontrivial":0,"rule":what,"samples":[s[:500]]}},open(ev,'w'),indent=1)
P
  echo "VIOLATION property=$ID replay=$R"
  exit 1
}

if [ "$ID" = setup ]; then
  build_main || fail "build"
  gobuild "$WORK/conc" ./cmd/conc -race || echo "note: no race build" >&2
  gobuild "$WORK/suriya" github.com/splendidmoons/suriya-go/suriya || echo "note: no command build" >&2
  gobuild "$WORK/years" github.com/splendidmoons/suriya-go/utils || echo "note: no tool build" >&2
  GOARCH=386 CGO_ENABLED=0 gobuild "$WORK/probe" ./cmd/probe || echo "note: no 32-bit build" >&2
  echo "setup done"; exit 0
fi

build_main || fail "the harness does not build against the tree"
case "$ID" in
  C26) CGO_ENABLED=1 gobuild "$WORK/conc" ./cmd/conc -race || fail "race build"; export VERIF_CONC="$WORK/conc" ;;
  C29) gobuild "$WORK/suriya" github.com/splendidmoons/suriya-go/suriya || fail "the command does not build"; export VERIF_CLI="$WORK/suriya"
    # the same command with a clock that can be set, for what it does by default
    T="$(go env GOROOT)/src/time"
    sed 's/^func Now() Time {/func realNow() Time {/; /^\/\/go:linkname Now$/d' "$T/time.go" > "$WORK/time.go"
    overlay "$WORK/overlay-clock.json" "$T/time.go" "$WORK/time.go" "$T/verif_now.go" "$VERIF_DIR/harness/virtual/now.txt"
    if go build -mod=readonly -buildvcs=false -overlay="$WORK/overlay-clock.json" -o "$WORK/suriya-clock" github.com/splendidmoons/suriya-go/suriya 2>"$WORK/build.log"; then
      export VERIF_CLI_CLOCK="$WORK/suriya-clock"
    else
      echo "note: no build with a clock that can be set, only today's defaults are checked" >&2
    fi ;;
  C44) # reads the answers from local files, where the package still has that setting
    overlay "$WORK/overlay-local.json" "$REPO/verif_local.go" "$VERIF_DIR/harness/virtual/local.txt"
    if go build -mod=readonly -buildvcs=false -overlay="$WORK/overlay-local.json" -o "$WORK/answers" ./cmd/answers 2>/dev/null; then
      export VERIF_ANSWERS="$WORK/answers"
    else
      echo "note: local files cannot be used for the moons any more, the answers are only decoded" >&2
    fi ;;
  C42) GOARCH=386 CGO_ENABLED=0 gobuild "$WORK/probe" ./cmd/probe || fail "32-bit build"; export VERIF_PROBE32="$WORK/probe" ;;
  C35) gobuild "$WORK/years" github.com/splendidmoons/suriya-go/utils 2>"$WORK/build.log" || {
      # the package does build and the tool needs nothing else, so it is the tool's fault
      cat "$WORK/build.log" >&2
      grep -qE 'utils/[^: ]*\.go:[0-9]+:' "$WORK/build.log" || fail "the tool does not build"
      violation "the tool does not compile" "$WORK/build.log" build
    }; export VERIF_YEARS="$WORK/years"
    # its two tables for any range of years, where it still has functions of these names
    for t in full simple; do
      overlay "$WORK/overlay-$t.json" "$REPO/utils/verif_table.go" "$VERIF_DIR/harness/virtual/table_$t.txt"
      if go build -mod=readonly -buildvcs=false -overlay="$WORK/overlay-$t.json" -o "$WORK/table-$t" github.com/splendidmoons/suriya-go/utils 2>/dev/null; then
        export VERIF_TABLE_$t="$WORK/table-$t"
      else
        echo "note: the $t table of the tool is only checked by running the tool" >&2
      fi
    done ;;
esac

cd "$REPO" || exit 2
if [ "$MODE" = replay ]; then "$WORK/main" "$ID" replay "$REPLAY"; exit $?; fi
rm -f "$VERIF_DIR/evidence/$ID.json"
export GOTRACEBACK=all
"$WORK/main" "$ID" "$MODE" 2>"$WORK/stderr"; rc=$?
head -c 20000 "$WORK/stderr" >&2
if [ $rc -ne 0 ] && [ $rc -ne 1 ] && grep -qE '^(runtime: goroutine stack exceeds|fatal error: (stack overflow|concurrent map|all goroutines are asleep|sync: ))' "$WORK/stderr"; then
  # the Go runtime ends the process on these: the code under test crashed it
  violation "the process was ended by the Go runtime" "$WORK/stderr" crash
fi
case $rc in 0|1) exit $rc ;; *) exit 2 ;; esac
