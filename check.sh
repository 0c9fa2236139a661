#!/bin/bash
# bash check.sh PROPERTY [quick|thorough] [--only HARNESS]   decide one property
# bash check.sh --replay FILE                                 replay a reported violation natively
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" VERIF_SEED="${VERIF_SEED:-1}"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
crate_of() { awk -v p="$1" '$1==p {print $2}' symex/crates.txt; }
if [ "$1" = --replay ]; then
    prop=$(awk '$1=="property" {print $2; exit}' "$2")
else
    prop=$1
fi
crate=$(crate_of "$prop")
[ -n "$crate" ] || { echo "unknown property $prop" >&2; exit 2; }
mkdir -p target evidence
# The encoding is regenerated from /repo's sources: when their content changed, cargo's own
# time stamps are not relied on.
exec 9>target/.verif-lock
flock 9
h=$(cd /repo && find crates/multicalc crates/multicalc-robot-model Cargo.toml -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ "$(cat target/.repo-hash 2>/dev/null)" != "$h" ]; then
    (cd symex && cargo clean --release -p multicalc -p multicalc-robot-model -p model_src -p model_gen >/dev/null 2>&1)
    rm -rf "$PWD/target/kani-cvc5" "$PWD/target/kani-cadical"
    (cd kani && cargo clean --release -p multicalc >/dev/null 2>&1)
    echo "$h" > target/.repo-hash
fi
if [ "$crate" = kani ]; then
    flock -u 9
    exec bash kani/run.sh "$@"
fi
if ! (cd symex && cargo build --release -q -p "$crate" >../target/build-$crate.log 2>&1); then
    grep -E '^error' -A12 "target/build-$crate.log" | head -60 >&2
    echo "harness crate $crate does not build against /repo" >&2
    exit 2
fi
flock -u 9
exec target/release/"$crate" "$@"
