#!/bin/bash
# Builds and runs the demonstration against the crate in the current directory. Writes only to a scratch directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/rgb-demo.XXXXXX) || exit 99
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$here/kit.rs" "$tmp/src/"
cp "$here/Cargo.lock" "$tmp/"
sed "s#@REPO@#$PWD#" "$here/Cargo.toml.in" > "$tmp/Cargo.toml"
cd "$tmp" || exit 99
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target"
# shellcheck disable=SC2086
cargo build --offline --quiet ${DEMO_FLAGS:-} || exit 98
bin="$tmp/target/debug/demo"
[ -x "$bin" ] || bin="$tmp/target/release/demo"
timeout 120 "$bin"
