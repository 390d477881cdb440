#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d) || exit 3
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/demo.rs" "$dir/src/main.rs"
cat > "$dir/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
perf-event-data = { path = "$repo" }
perf-event-open-sys2 = "5.0.3"
[workspace]
EOF
cp "$repo/Cargo.lock" "$dir/Cargo.lock" 2>/dev/null
cd "$dir" && timeout 250 cargo run --offline --quiet --target-dir "$dir/target"
