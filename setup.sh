#!/bin/bash
# Builds the executor, the replay runtime and the bytecode of the current tree (so that a check
# only recompiles what changed).
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
(cd engine && cargo build --release --offline) &
a=$!
(cd replay && cargo build --release --offline) &
b=$!
mkdir -p work
(bash tools/build_elf.sh work/setup.so && bash tools/build_elf.sh work/setup_h.so harness) &
c=$!
wait $a; wait $b; wait $c
rm -f work/setup.so work/setup_h.so
