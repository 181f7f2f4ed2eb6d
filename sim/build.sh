#!/bin/bash
# build.sh simlocal|simremote: builds one simulator binary against /repo's working tree.
set -e
cd "$(dirname "$0")"
pkg=$1
export CARGO_TARGET_DIR=$PWD/target/$pkg
log=$PWD/target/$pkg.log
mkdir -p target
flags=""
[ "$pkg" = simremote ] && flags="--cfg kameo_sim"
RUSTC_WRAPPER=$PWD/rustc-wrap.sh RUSTFLAGS="$flags" cargo build --offline --release -p "$pkg" > "$log" 2>&1 || { tail -60 "$log"; exit 1; }
