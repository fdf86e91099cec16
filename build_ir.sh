#!/bin/bash
# Build the whole-program bitcode of the harness + /repo's current tree. Usage: build_ir.sh TARGET_DIR
set -e
cd "$(dirname "$0")/harness"
export CARGO_TARGET_DIR=$1
RUSTUP_TOOLCHAIN=stable RUSTFLAGS="-C save-temps" cargo rustc -q --lib --crate-type cdylib --profile sym --offline -- --emit=llvm-ir
