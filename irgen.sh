#!/bin/bash
# usage: irgen.sh TARGETDIR OUT.ll -- whole-program LLVM IR of the harnesses and /repo's crate
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$1" RUSTFLAGS="-Cno-vectorize-loops -Cno-vectorize-slp"
cd /verif/harness && cargo rustc --release --offline --lib --crate-type cdylib -- --emit=llvm-ir >"$1.log" 2>&1 || { cat "$1.log"; exit 2; }
cp "$1"/release/deps/vh.ll "$2"
