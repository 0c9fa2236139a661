#!/bin/bash
# Builds every harness crate (checks rebuild what they need from /repo's current tree anyway).
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p target evidence
(cd symex && cargo build --release -q) || exit 1
for s in z3-new z3 cvc5; do command -v $s >/dev/null || { echo "missing solver $s"; exit 1; }; done
(cd kani && for s in cvc5 cadical; do env -u CARGO_TARGET_DIR -u RUSTUP_TOOLCHAIN cargo kani --only-codegen --target-dir "$OLDPWD/target/kani-$s" >"$OLDPWD/target/build-kani.log" 2>&1; done) || true
(cd kani && cargo build --release -q --offline) || exit 1
