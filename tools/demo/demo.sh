#!/bin/bash
# Runs the program beside this script against the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here"/*.rs "$d/src/"
cp "$here/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
mortal = { path = "$repo" }
libc = "0.2"
unicode-width = "0.1"
unicode-normalization = "0.1"
X
export RUSTFLAGS="--cap-lints allow" TERM=dumb
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo build --offline -q >"$d/log" 2>&1 || { tail -30 "$d/log"; exit 3; }
TERMINFO="$here/terminfo" HOME="$d" timeout 100 "$d/target/debug/demo" < /dev/null
