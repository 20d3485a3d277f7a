#!/bin/bash
# ./check32.sh TIER [--replay 'SUITE#CASE']: C21. Builds library and harness for wasm32 (32-bit
# pointers, native float f32), standard library included, and runs them under node.
cd "$(dirname "$0")" || exit 2
. ./env.sh
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
TIER="${1:-quick}"; shift
mkdir -p evidence wasm/vendor wasm/.cargo
V="$PWD/wasm/vendor"
SRC="$(rustc --print sysroot)/lib/rustlib/src/rust/library"
# one directory source: the standard library's vendored crates and the cached ones the repository needs
for d in "$SRC"/vendor/*/; do n="$(basename "$d")"; [ -e "$V/$n" ] || ln -s "$d" "$V/$n"; done
python3 - "$V" harness/Cargo.lock /root/.cargo/registry/src <<'P' || exit 2
import sys, os, re, shutil, json, glob
v, lock, reg = sys.argv[1:]
for name, ver, ck in re.findall(r'name = "([^"]+)"\nversion = "([^"]+)"\nsource = "registry[^"]*"\nchecksum = "([^"]+)"', open(lock).read()):
    d = os.path.join(v, f'{name}-{ver}')
    if os.path.exists(d): continue
    src = glob.glob(f'{reg}/*/{name}-{ver}')
    if not src: sys.exit(f'{name}-{ver} is not in the cargo cache')
    shutil.copytree(src[0], d, ignore=shutil.ignore_patterns('.cargo-ok'))
    json.dump({"files": {}, "package": ck}, open(os.path.join(d, '.cargo-checksum.json'), 'w'))
P
cat > wasm/.cargo/config.toml <<C
[source.crates-io]
replace-with = "all"
[source.all]
directory = "$V"
C
log="$(mktemp)"
if ! RUSTFLAGS="-Znext-solver=no -C link-arg=-zstack-size=16777216" cargo --config wasm/.cargo/config.toml build --release --offline --quiet -Zbuild-std=std,panic_abort --target wasm32-unknown-unknown \
    --manifest-path harness/Cargo.toml --target-dir wasm/target --features c21 --lib >"$log" 2>&1; then
  # a library that builds for this machine but not for a 32-bit one does not hold its promise there
  if (unset RUSTFLAGS; . ./env.sh; cargo build --release --offline --quiet --manifest-path harness/Cargo.toml --features c21 --bin mc) >/dev/null 2>&1 \
     && grep -q '/repo/src' "$log"; then
    mkdir -p evidence/replay
    cp "$log" evidence/replay/C21.txt
    w="the library builds for 64-bit targets, but not for 32-bit ones"
    echo "{\"property\": \"C21\", \"tier\": \"$TIER\", \"seed\": 0, \"level\": \"model_checking\", \"coverage\": {\"states\": 0, \"transitions\": 0, \"traces_validated_against_impl\": 0, \"exhaustive\": false, \"explanation\": \"$w\", \"samples\": [\"$w\"]}, \"wall_s\": 0.0, \"violations\": 1}" > evidence/C21.json
    echo "C21: $w"; grep -m3 -A6 '^error' "$log"
    echo "VIOLATION property=C21 replay=$PWD/evidence/replay/C21.txt"
    rm -f "$log"; exit 1
  fi
  echo "C21: the 32-bit build of /repo fails" >&2; tail -40 "$log" >&2; rm -f "$log"; exit 2
fi
rm -f "$log"
exec node --stack-size=60000 run32.mjs wasm/target/wasm32-unknown-unknown/release/mc.wasm "$TIER" "$@"
