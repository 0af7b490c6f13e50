#!/bin/bash
# Builds /repo's sources (cwd) against small stand-ins of the crates below them and runs main.rs.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
cp -r "$here/demo" "$t/demo" || exit 2
cd "$t/demo" || exit 2
sed "s#@REPO@#$repo#" carmen-core/Cargo.toml.in >carmen-core/Cargo.toml
CARGO_TARGET_DIR="$t/target" timeout 200 cargo build --offline -q 2>"$t/log" || { tail -40 "$t/log"; exit 2; }
timeout 60 "$t/target/debug/demo"
