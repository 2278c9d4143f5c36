#!/bin/bash
# usage: dump.sh FEATURES OUT   (FEATURES: full | none)
set -e
here=$(cd "$(dirname "$0")" && pwd)
feat=$1; out=$2
export CARGO_TARGET_DIR=$here/.build/mir-$feat
mkdir -p "$CARGO_TARGET_DIR"
SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib
export RUSTC_WRAPPER=$here/.build/driver/release/mirdump
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Zinline-mir=no -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums -Cdebug-assertions=on -Coverflow-checks=on -Awarnings"
export MIRDUMP_CRATE=verif_fixture MIRDUMP_OUT=$out
args=(--offline -q)
[ "$feat" = none ] && args+=(--no-default-features)
touch "$here/fixture/src/lib.rs"
cd "$here/fixture"
exec cargo +nightly check "${args[@]}"
