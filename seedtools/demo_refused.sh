#!/bin/bash
# run with cwd = the repository; exit 0 iff bad.rs is refused by the borrow checker and good.rs compiles
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src/bin"
cp "$here"/main.rs "$tmp/src/bin/bad.rs"
grep -v MISUSE "$here"/main.rs > "$tmp/src/bin/good.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
mysql-connector = { path = "$repo" }
T
cd "$tmp" || exit 2
export CARGO_TARGET_DIR="$tmp/target"
timeout 200 cargo check -q --offline --bin good 2>&1 | tail -20
[ "${PIPESTATUS[0]}" = 0 ] || { echo "the correct program does not compile"; exit 0; }
if timeout 80 cargo check -q --offline --bin bad 2>&1 | tail -20; [ "${PIPESTATUS[0]}" = 0 ]; then echo "the misuse compiles"; exit 1; fi
exit 0
