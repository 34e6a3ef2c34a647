#!/bin/bash
# run.sh build | check ID | replay FILE | selftest N | once ID SEED ... : builds the simulator against /repo's working tree, then runs it.
root=$(cd "$(dirname "$0")" && pwd)
cd "$root/harness" || exit 2
export UCANSIM_ROOT="$root" CARGO_TARGET_DIR="$root/harness/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p "$CARGO_TARGET_DIR" || exit 2
# cargo trusts modification times; trust contents instead
now=$(cd /repo && find . \( -name target -o -name .git -o -name node_modules \) -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' -o -name 'rust-toolchain*' -o -path '*/.cargo/*' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$now" != "$(cat "$CARGO_TARGET_DIR/repo.sum" 2>/dev/null)" ]; then
  [ -d "$CARGO_TARGET_DIR/release" ] && cargo clean --release --offline -p ucan -p ucan-key-support -p ucansim >/dev/null 2>&1
  rm -f "$CARGO_TARGET_DIR/repo.sum"
fi
log="$CARGO_TARGET_DIR/build.log"
if ! cargo build --release --offline >"$log" 2>&1; then
  echo "run.sh: the simulator does not build against /repo:" >&2
  grep -E '^error' -A8 "$log" | head -60 >&2
  exit 2
fi
echo "$now" >"$CARGO_TARGET_DIR/repo.sum"
[ "$1" = build ] && exit 0
exec "$CARGO_TARGET_DIR/release/ucansim" "$@"
