#!/bin/bash
# check.sh build | check.sh Cnn [--quick|--thorough] | check.sh replay FILE | check.sh trace Cnn FROM N | check.sh show Cnn INDEX
# Rebuilds the simulator against /repo's current working tree, then runs it.
[ "$1" = replay ] && set -- replay "$(realpath -m "$2")"
cd /verif/sim || exit 2
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_TARGET_DIR RUSTC_WORKSPACE_WRAPPER CARGO_BUILD_TARGET
export RUSTC_WRAPPER=/verif/sim/rustc-wrap.sh RUSTC_BOOTSTRAP=psim CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
# Decide by content, not by modification time, whether the library must be compiled again.
now=$(cd /repo && find src Cargo.toml -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat target/.repo-hash 2>/dev/null)" != "$now" ]; then
  cargo clean --release --offline -p puruspe >/dev/null 2>&1
  cargo clean --profile checked --offline -p puruspe >/dev/null 2>&1
  rm -f target/.repo-hash
fi
# Two builds: one as users ship it, and one with the overflow checks and debug assertions of a debug build in the library.
log=$(mktemp); log2=$(mktemp)
cargo build --profile checked --offline --locked >"$log2" 2>&1 &
two=$!
cargo build --release --offline --locked >"$log" 2>&1; one=$?
wait $two; two=$?
if [ $one != 0 ] || [ $two != 0 ]; then
  cat "$log" "$log2" >&2; rm -f "$log" "$log2"
  echo "HARNESS ERROR: the simulator does not build against /repo" >&2
  exit 2
fi
rm -f "$log" "$log2"
echo "$now" > target/.repo-hash
case "$1" in
  build) exit 0 ;;
  C*) exec target/release/psim check "$@" ;;
  *) exec target/release/psim "$@" ;;
esac
