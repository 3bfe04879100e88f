#!/bin/bash
# Builds the whole-program LLVM IR of the harness crate + /repo + std (patched SipHash) into target/ir
# usage: build_ir.sh <feature>   -> prints the path of the .ll file
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
[ "$(cat $V/target/stdsrc/.done 2>/dev/null)" = "$(sha256sum < $V/tools/mkstd.sh)" ] || { rm -rf "$V/target/stdsrc" "$V/target/ir"; bash $V/tools/mkstd.sh $V/target/stdsrc; sha256sum < $V/tools/mkstd.sh > $V/target/stdsrc/.done; }
export __CARGO_TESTS_ONLY_SRC_ROOT=$V/target/stdsrc/library RUSTC_BOOTSTRAP=1
export CARGO_TARGET_DIR=$V/target/ir CARGO_NET_OFFLINE=true
cd $V/harness
cargo rustc --offline --release --lib --crate-type staticlib ${1:+--features $1} -Zbuild-std=std,panic_abort -Zbuild-std-features=optimize_for_size --target x86_64-unknown-linux-gnu $EXTRA -- --emit=llvm-ir=$V/target/ir/hx-${1:-all}.ll >&2
cp $V/target/ir/x86_64-unknown-linux-gnu/release/libvpharness.a $V/target/ir/hx-${1:-all}.a
echo $V/target/ir/hx-${1:-all}.ll
