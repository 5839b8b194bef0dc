#!/bin/bash
# Runs main.rs against the crate in the current directory; fails if the property is broken.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
tmp=/tmp/seq-storage-demo
rm -rf /tmp/seq-storage-demo
trap 'rm -rf /tmp/seq-storage-demo' EXIT
mkdir -p "$tmp/src"
cp "$here"/*.rs "$tmp/src/" || exit 99
cp "$repo/Cargo.lock" "$tmp/" 2>/dev/null
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
sequential-storage = { path = "$repo", features = ["std", "alloc", "arrayvec", "heapless", "heapless-09", "postcard", "shared-ram-ring"] }
embedded-storage-async = "0.4.1"
critical-section = { version = "1", features = ["std"] }
[workspace]
T
cd "$tmp" && cargo build --offline -q 2>&1 | grep -E "^error" -A9
[ -x "$tmp/target/debug/demo" ] || { echo "the demonstration does not build"; exit 98; }
timeout 120 "$tmp/target/debug/demo"
