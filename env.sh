# Sourced by build.sh and check.sh.
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 RUSTC_WRAPPER=
export CARGO_TERM_COLOR=never CARGO_TARGET_DIR=$V/build/target RUST_MIN_STACK=8388608
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
