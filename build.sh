#!/bin/bash
# Builds the harness against /repo's current working tree (offline). Exit 2 on failure.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR=$PWD/target RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset CARGO_BUILD_TARGET RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p target
# cargo looks at modification times; the contents decide here
stamp=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum )
if [ "$(cat target/repo.stamp 2>/dev/null)" != "$stamp" ]; then
  rm -f target/repo.stamp
  cargo clean --offline --release -p artlr_syntax --manifest-path harness/Cargo.toml >/dev/null 2>&1
fi
if ! cargo build --release --offline --manifest-path harness/Cargo.toml >target/build.log 2>&1; then
  cat target/build.log >&2
  echo "build failed" >&2
  exit 2
fi
echo "$stamp" > target/repo.stamp
