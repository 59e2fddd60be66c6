# D02: the comparison with the calls run alone in the ordinary build, and the
# same program under ThreadSanitizer.
find "$VH_ROOT/evidence" -maxdepth 1 -name "D02*.json" -delete
mkdir -p "$VH_TARGET/tsan"
vh_build_san tsan d02 & pt=$!
vh_build d02; rb=$?
wait $pt; rt=$?
[ $rb = 0 ] && [ $rt = 0 ] || { echo "INCONCLUSIVE: build failed"; return 2; }
code=0
for k in plain tsan; do
  bin=$VH_TARGET/release/d02
  [ $k = tsan ] && bin=$(vh_san_bin tsan d02)
  TSAN_OPTIONS="exitcode=99:halt_on_error=1:ignore_noninstrumented_modules=1:suppressions=$(dirname "${BASH_SOURCE[0]}")/tsan.supp:log_path=$VH_ROOT/evidence/replay/D02-tsan.log" \
    VH_TOOL=$k VH_EVIDENCE=D02-$k "$bin"
  r=$?
  [ $r = 1 ] && code=1
  [ $r -gt 1 ] && [ $code = 0 ] && code=2
done
[ -n "${VH_REPLAY:-}${VH_ONLY:-}" ] && return $code
python3 tools/merge_evidence.py D02 || code=2
return $code
