#!/bin/bash
# ir.sh cXX OUT.ll [opt-level]: compile the harness module with /repo's current source to LLVM IR.
set -e
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/harness"
T=${VERIF_BUILD:-$here/build}/ir-$1${3:+-O$3}
mkdir -p "$T"
rm -rf "$T"/release   # never trust time stamps: always compile /repo as it is now
[ "$1" = c27 ] && export CARGO_PROFILE_RELEASE_PANIC=unwind
RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=$T ${3:+env CARGO_PROFILE_RELEASE_OPT_LEVEL=$3} cargo rustc -q --release --offline --features "$1" -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp
cp "$T"/release/deps/harness*.ll "$2"
