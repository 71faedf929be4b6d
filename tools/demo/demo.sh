#!/bin/bash
# Builds the program beside this file with the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" "$work/tmp"
cp "$here"/*.rs "$work/src/"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
anothertls = { path = "$repo/anothertls" }
ibig = "0.3.6"
[profile.dev]
opt-level = 1
debug = false
overflow-checks = true
[workspace]
T
cd "$work" || exit 3
export CARGO_TARGET_DIR="$work/target" TMPDIR="$work/tmp"
cargo build --offline -q 2>"$work/log" || { cat "$work/log"; exit 4; }
timeout 200 "$work/target/debug/demo"
