# D01 is decided by three detectors, which run side by side:
#   asan  AddressSanitizer + the standard library's precondition checks
#   msan  MemorySanitizer (uninitialised data), the same
#   miri  the Miri interpreter (aliasing, alignment, invalid values)
E_=$VH_ROOT/evidence
find "$E_" -maxdepth 1 -name "D01*.json" -delete
thorough=; [ "$VERIF_TIER" = thorough ] && thorough=1
feat=${thorough:+modules}
budget=${thorough:+1500}; budget=${budget:-200}
miri_budget=${thorough:+900}; miri_budget=${miri_budget:-60}
B=$VH_TARGET
mkdir -p "$B/asan" "$B/msan" "$B/miri"
partial=; [ -n "${VH_REPLAY:-}${VH_ONLY:-}" ] && partial=1

vh_build_san asan d01 $feat & pa=$!
vh_build_san msan d01 $feat & pm=$!
( vh_miri_build ) & pi=$!
wait $pa; ra=$?; wait $pm; rm_=$?; wait $pi; ri=$?
[ $ra = 0 ] && [ $rm_ = 0 ] || { echo "INCONCLUSIVE: build failed"; return 2; }

stage() { # stage NAME: run one of the two instrumented programs
  local k=$1 log=$E_/replay/D01-$1.log
  ASAN_OPTIONS="exitcode=99:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:log_path=$log" \
  MSAN_OPTIONS="exitcode=99:halt_on_error=1:log_path=$log" \
  VH_BUDGET=$budget VH_TOOL=$k VH_EVIDENCE=D01-$k "$(vh_san_bin "$k" d01)" > "$B/$k/run.log" 2>&1
}
miri() { # miri NAME SECTIONS
  ( vh_miri_env
    export VH_INLINE=1 VH_TOOL=miri VH_BUDGET=$miri_budget VH_ONLY=$2 VH_EVIDENCE=D01-miri-$1
    unset VH_REPLAY
    cd harness &&
    timeout $((miri_budget * 4)) cargo miri run --offline --locked --target-dir "$B/miri" --bin d01 \
      > "$B/miri/run-$1.log" 2>&1 )
}
stage asan & pa=$!
stage msan & pm=$!
miris=
if [ $ri = 0 ] && [ -z "$partial" ]; then
  miri casts casts,palettes,encoders & miris="$miris casts:$!"
  miri buffers buffers & miris="$miris buffers:$!"
  miri liars "lying containers" & miris="$miris liars:$!"
  miri operations operations & miris="$miris operations:$!"
  miri dynamic "dynamic images" & miris="$miris dynamic:$!"
  miri simple "bmp files,dds files,farbfeld files,hdr files,pnm files,qoi files,tga files" & miris="$miris simple:$!"
  miri packed "png files,gif files,tiff files,ico files,jpeg files" & miris="$miris packed:$!"
fi
code=0
wait $pa; ra=$?; wait $pm; rm_=$?
for k in asan msan; do echo "== $k"; grep -a -v "^KNOWN-FINDING" "$B/$k/run.log" | tail -n 45; done
for k in $ra $rm_; do [ "$k" = 1 ] && code=1; done
[ $code = 0 ] && for k in $ra $rm_; do [ "$k" != 0 ] && code=2; done
for m in $miris; do
  wait "${m#*:}"; r=$?
  n=${m%%:*}; log=$B/miri/run-$n.log
  if grep -aq "Undefined Behavior" "$log"; then
    cp "$log" "$E_/replay/D01-miri-$n.txt"
    grep -a "Undefined Behavior" "$log" | head -n 3
    echo "VIOLATION property=D01 replay=$E_/replay/D01-miri-$n.txt"
    code=1
  else
    echo "== miri $n: exit $r (0 held, 124 out of time), $(grep -ac 'unsupported operation' "$log") unsupported"
  fi
done
[ $ri = 0 ] || echo "note: the Miri stage could not be built: see $B/miri/build.log"
[ -n "$partial" ] && return $code
python3 tools/merge_evidence.py D01 || code=2
return $code
