#!/bin/sh
# LLVM IR of the harnesses and everything they call, from /repo's current tree. usage: lir.sh TARGET_DIR [CARGO-OPTION...]
cd "$(dirname "$0")/../lharn" || exit 2
T=$1
shift
RUSTUP_TOOLCHAIN=1.99.1 RUSTC_BOOTSTRAP=1 CARGO_TARGET_DIR=$T RUSTFLAGS="-Zinline-mir=no -C no-prepopulate-passes -C llvm-args=-inline-threshold=45 -C passes=function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg),globaldce,cgscc(inline),function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg),globaldce" exec cargo rustc --release --offline --locked "$@" -- --emit=llvm-ir -C link-arg=-Wl,--unresolved-symbols=ignore-all
