#!/bin/bash
# build.sh [PROGRAM...]: builds the simulator and the scenarios (simcheck, simenums; default: all) against
# /repo's working tree. Offline.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG RUSTC_WORKSPACE_WRAPPER
export RUSTC_WRAPPER="$here/rustc-wrap.sh"
export CARGO_TARGET_DIR="${SIM_TARGET:-$here/target}"
[ $# -eq 0 ] && set -- simcheck simenums
cd "$here" && exec cargo build --offline -q "${@/#/-p}"
