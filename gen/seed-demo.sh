#!/bin/bash
# Builds main.rs against the repository in the current directory and runs it: exit 0 if the
# property holds on this example, nonzero otherwise. All it writes is in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/main.rs" "$t/src/main.rs" || exit 99
sed "s#@REPO@#$repo#g" "$here/crate.toml" > "$t/Cargo.toml"
cp "$here/crate.lock" "$t/Cargo.lock"
cd "$t" || exit 99
export CARGO_TARGET_DIR="$t/target"
cargo build -q --offline || exit 98
"$t/target/debug/demo"
