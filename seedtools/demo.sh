#!/bin/bash
# run with cwd = the repository; exit 0 iff the library behaves
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here"/*.rs "$tmp/src/"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null
FEAT=${DEMO_FEATURES-'"caching-sha2-password"'}
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
mysql-connector = { path = "$repo", default-features = false, features = [$FEAT] }
tokio = { version = "1", features = ["io-util"] }
chrono = "0.4"
T
cd "$tmp" || exit 2
CARGO_TARGET_DIR="$tmp/target" timeout 280 cargo run -q --offline 2>&1 | tail -20
exit ${PIPESTATUS[0]}
