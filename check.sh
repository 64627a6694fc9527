#!/bin/bash
# check.sh build            build the harness against /repo's working tree
# check.sh <property>       build, then run one property check (VERIF_TIER=quick|thorough, VERIF_SEED)
# Exit: 0 held, 1 violation (VIOLATION line printed), anything else: the check could not run.
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export MXMC_VERIF="$V"
unset RUSTC_WRAPPER CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG CARGO_ENCODED_RUSTFLAGS
T="$V/target"
mkdir -p "$T" || exit 3
cd "$V/harness" || exit 3

build() {
  (
    flock 9
    # cargo decides by mtime; decide by content instead
    now=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    if [ -f "$T/stamp" ] && [ "$(cat "$T/stamp")" != "$now" ]; then
      cargo clean --offline -q --target-dir "$T" -p mx-message 2>/dev/null
    fi
    rm -f "$T/stamp"
    # the parallel front end halves the compile time of the document modules; plain build if it fails
    RUSTC_WRAPPER="$V/harness/instrument.sh" RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zthreads=8" timeout 600 cargo build --offline -q --target-dir "$T" 2>"$T/build.log" ||
      env -u RUSTFLAGS timeout 600 cargo build --offline -q --target-dir "$T" 2>"$T/build.log" || exit 4
    echo "$now" >"$T/stamp"
  ) 9>"$T/.lock"
}

if ! build; then
  echo "build failed:" >&2
  tail -40 "$T/build.log" >&2
  exit 4
fi
[ "$1" = build ] && exit 0
TIER="${VERIF_TIER:-quick}"
exec "$T/debug/mxmc" "$1" --tier "$TIER"
