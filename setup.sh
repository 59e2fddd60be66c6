#!/bin/bash
# Prebuild every monitor (the checks rebuild what changed).
cd "$(dirname "$(readlink -f "$0")")" || exit 2
. ./lib.sh
mkdir -p evidence/replay "$VH_TARGET/asan" "$VH_TARGET/msan" "$VH_TARGET/tsan" "$VH_TARGET/miri"
vh_fresh "$VH_TARGET"
code=0
cargo build --manifest-path harness/Cargo.toml --release --offline --locked \
  --target-dir "$VH_TARGET" --bins 2>&1 | tail -n 5
[ "${PIPESTATUS[0]}" = 0 ] || code=1
# the instrumented builds of D01 and D02
vh_build_san asan d01 & pa=$!
vh_build_san msan d01 & pm=$!
wait $pa || code=1; wait $pm || code=1
vh_build_san tsan d02 & pt=$!
( vh_miri_build ) & pi=$!
wait $pt || code=1
wait $pi || echo "note: no Miri stage"
exit $code
