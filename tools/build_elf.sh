#!/bin/bash
# build_elf.sh OUT.so [harness] : compiles /repo/program (as it is now) to on-chain bytecode,
# or the harness crate linked with it. The result is cached by the content of everything it is
# compiled from.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
out=$(realpath -m "$1")
what=${2:-program}
repo=${VERIF_REPO:-/repo}
work=$here/work/elf
mkdir -p "$work"
exec 9>"$work/lock"; flock 9
h=$( { echo "$what"; cd "$repo" && { find program -path program/tests -prune -o -path '*/target' -prune -o -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml Cargo.lock; cat "$here"/tools/build_elf.sh "$here"/tools/linker.sh "$here"/harness/Cargo.toml "$here"/harness/src/*.rs; }; } | sha256sum | cut -c1-32)
if [ ! -s "$work/$h.so" ]; then
  export RUSTUP_TOOLCHAIN=nightly RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
  export CARGO_TARGET_DIR=$work/target CARGO_INCREMENTAL=0
  export __CARGO_TESTS_ONLY_SRC_ROOT=/opt/vp/sbpf/rustsrc/library RUSTC_BOOTSTRAP_SYNTHETIC_TARGET=1
  export CARGO_PROFILE_RELEASE_OPT_LEVEL=s CARGO_PROFILE_RELEASE_PANIC=abort
  # this linker for every crate: the target's own one would write into /repo/target
  export RUSTFLAGS="-C target-cpu=v2 -C passes=lower-atomic -C linker=$here/tools/linker.sh"
  unset LD_LIBRARY_PATH
  # never trust file times: the crates themselves are always compiled again
  r=$work/target/sbpf-solana/release
  rm -rf "$r"/.fingerprint/spl-token-wrap-* "$r"/libspl_token_wrap.so "$r"/.fingerprint/wrapharness-* "$r"/libwrapharness.so
  if ls "$r"/build/spl-token-wrap >/dev/null 2>&1; then rm -rf "$r"/build/spl-token-wrap; fi
  common="--release --offline --target /opt/vp/sbpf/sbpf-solana.json -Zjson-target-spec -Zbuild-std=std,panic_abort -Zbuild-std-features="
  if [ "$what" = program ]; then
    cd "$repo"
    lib=spl_token_wrap
    cmd="cargo rustc $common --lib --locked --crate-type cdylib -p spl-token-wrap"
  else
    # a copy, so that the tree under test can be elsewhere and the lock file stays as committed
    mkdir -p "$work/harness"
    rm -rf "$work/harness/src"
    cp -r "$here/harness/src" "$work/harness/src"
    sed "s|path = \"/repo/program\"|path = \"$repo/program\"|" "$here/harness/Cargo.toml" >"$work/harness/Cargo.toml"
    cp "$here/harness/Cargo.lock" "$work/harness/Cargo.lock"
    cd "$work/harness"
    lib=wrapharness
    cmd="cargo rustc $common --lib"
  fi
  export VERIF_ELFS=$lib
  $cmd >"$work/log" 2>&1 || { grep -aE "^(error|warning: unused)" -A6 "$work/log" | cut -c1-300 | head -60 >&2; exit 1; }
  cp "$r/lib$lib.so" "$work/$h.so.tmp"
  mv "$work/$h.so.tmp" "$work/$h.so"
fi
cp "$work/$h.so" "$out"
