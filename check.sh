#!/bin/bash
# ./check.sh ID [quick|thorough] [--replay 'SUITE#CASE']
# Builds the harness against /repo's current tree and runs the exploration of one property.
# exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict (does not build, vacuous).
cd "$(dirname "$0")" || exit 2
. ./env.sh
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"; shift; shift
feat="$(echo "$ID" | tr 'A-Z' 'a-z')"
if [ "$ID" = C21 ]; then
  exec ./check32.sh "$TIER" "$@"
fi
mkdir -p evidence/replay
log="$(mktemp)"
trap 'rm -f "$log"' EXIT
build() { cargo build --release --offline --quiet --manifest-path harness/Cargo.toml --features "$1" --bin mc >"$log" 2>&1; }
fail() { # what, evidence
  local r="$PWD/evidence/replay/$ID.txt"
  { echo "property: $ID"; echo "what: $1"; echo; cat "$2"; } > "$r"
  python3 - "$ID" "$TIER" "$1" <<'P'
import json, sys
i, t, w = sys.argv[1:]
json.dump({"property": i, "tier": t, "seed": 0, "level": "model_checking", "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "exhaustive": False, "explanation": w, "samples": [w]}, "wall_s": 0.0, "violations": 1}, open(f"evidence/{i}.json", "w"))
P
  echo "$ID: $1"
  echo "VIOLATION property=$ID replay=$r"
  exit 1
}
if ! build "$feat"; then
  if [ "$ID" = C17 ]; then
    # the same operations compile for PointN but not for another lawful point type
    cp "$log" "$log.17"
    if build "c02,c05,c12,c13,c14,c15"; then
      mv "$log.17" "$log"
      fail "the curves do not accept a point type that implements the point trait (they do accept PointN)" "$log"
    fi
    mv "$log.17" "$log"
  fi
  echo "$ID: the harness does not build against /repo" >&2
  tail -40 "$log" >&2; exit 2
fi
if [ "$ID" = C28 ]; then
  # the builds to compare with: name, cargo arguments, RUSTFLAGS, how closely they must agree
  MC_BUILDS=
  i=0
  while IFS='|' read -r name args flags how; do
    i=$((i+1)); dir="harness/target-b$i"; prof="$(sed 's/.*--profile \([a-z0-9]*\).*/\1/' <<<"$args")"
    mkdir -p "$dir"; { RUSTFLAGS="$flags" cargo build $args --offline --quiet --manifest-path harness/Cargo.toml --target-dir "$dir" --bin mc >"$dir/build.log" 2>&1; echo $? >"$dir/build.rc"; } &
    MC_BUILDS="$MC_BUILDS;$name=$PWD/$dir/$prof/mc=$how"
    eval "name$i=\$name"
  done <<B
debug, not optimised|--profile debug0 --features c28||exact
release, optimised, no checks|--profile plain --features c28||exact
for size, no checks, panics abort|--profile small --features c28||exact
all features of this processor|--profile plain --features c28|-C target-cpu=native|exact
standard library math|--profile plain --features c28,ntstd||close
B
  wait
  for k in $(seq $i); do
    dir="harness/target-b$k"
    [ "$(cat "$dir/build.rc")" = 0 ] && continue
    n="name$k"
    if grep -q "$(sed -n 's/^stroke *= *{ *path *= *"\([^"]*\)".*/\1/p' harness/Cargo.toml)/src" "$dir/build.log"; then
      fail "the library does not build in one configuration (${!n}), and builds in another" "$dir/build.log"
    fi
    echo "C28: the build '${!n}' failed" >&2; tail -30 "$dir/build.log" >&2; exit 2
  done
  export MC_BUILDS
fi
if [ "$ID" = C29 ]; then
  # the same operations in a program without standard library: the library must build, link and run there
  if ! cargo build --release --offline --quiet --manifest-path free/Cargo.toml >"$log" 2>&1; then
    fail "the library does not build into a program without standard library, and builds into one with it" "$log"
  fi
  if ! gcc -O2 -ffreestanding -fno-builtin -fno-tree-loop-distribute-patterns -nostdlib -static -o free/target/free free/start.c free/target/release/libfree.a >"$log" 2>&1; then
    fail "the library does not link into a program without standard library and C library" "$log"
  fi
  export MC_FREE="$PWD/free/target/free"
fi
harness/target/release/mc "$ID" "$TIER" "$@" 2> >(tee "$log" >&2)
rc=$?
case $rc in
  0|1|2) exit $rc ;;
  134|139|132|136) fail "the exploration was ended by a crash (status $rc) inside a library call: stack overflow, abort or memory fault" "$log" ;;
  *) exit 2 ;;
esac
