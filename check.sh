#!/bin/bash
# check.sh <property> [tier]  -- explore one property against /repo's working tree
# check.sh build              -- build both configurations (setup)
# check.sh replay <file>      -- re-execute one recorded case
cd "$(dirname "$0")" || exit 2
export MC_VERIF="$PWD"
export MC_T0=$(date +%s)
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
LOG=$(mktemp)
trap 'rm -f "$LOG"' EXIT
build_scalar() {
  (cd mc && cargo build --release --offline --quiet --target-dir "$PWD/target") >"$LOG" 2>&1 ||
    { echo "build failed" >&2; tail -40 "$LOG" >&2; exit 2; }
}
build_avx() {
  (cd mc && RUSTFLAGS="-C target-feature=+avx" cargo build --release --offline --quiet \
      --target x86_64-unknown-linux-gnu --target-dir "$PWD/target-avx") >"$LOG" 2>&1 ||
    { echo "avx build failed" >&2; tail -40 "$LOG" >&2; exit 2; }
}
SC=mc/target/release/mc
AV=mc/target-avx/x86_64-unknown-linux-gnu/release/mc
case "$1" in
  build) build_scalar; build_avx; exit 0 ;;
  replay)
    if grep -q '^config=avx' "$2"; then build_avx; exec "$AV" replay "$2"; else build_scalar; exec "$SC" replay "$2"; fi ;;
esac
ID="$1"
[ -n "$2" ] && export VERIF_TIER="$2"
: "${VERIF_TIER:=quick}"; export VERIF_TIER
build_scalar
rc=0
if [ "$ID" = C09 ] || [ "$ID" = C18 ] || [ "$ID" = C22 ]; then
  build_avx
  P=$(mktemp)
  if grep -qw avx2 /proc/cpuinfo && grep -qw fma /proc/cpuinfo; then
    MC_PARTIAL="$P" "$AV" run "$ID"; rc=$?
  else
    echo "this machine has no AVX2: only the scalar configuration is explored" >&2
  fi
  MC_MERGE="$P" "$SC" run "$ID"; rc2=$?
  rm -f "$P"
  if [ $rc = 1 ] || [ $rc2 = 1 ]; then exit 1; fi
  if [ $rc != 0 ]; then exit $rc; fi
  exit $rc2
fi
"$SC" run "$ID"
exit $?
