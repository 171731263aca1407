#!/bin/bash
# Builds the demonstration against the crate in the current directory and runs it in a scratch folder.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.82.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset RUSTFLAGS RUSTDOCFLAGS CARGO_TARGET_DIR
d="$(mktemp -d)" || exit 9
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here"/*.rs "$d/src/"
extra=""; [ -f "$here/features" ] && extra="$(cat "$here/features")"
sed -e "s#@REPO@#$repo#" -e "s#@EXTRA@#$extra#" "$here/Cargo.toml.in" >"$d/Cargo.toml"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cd "$d" || exit 9
cargo build --offline -q 2>"$d/log" || { cat "$d/log"; exit 8; }
timeout 120 "$d/target/debug/demo"
