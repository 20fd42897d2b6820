#!/bin/bash
# Builds main.rs against the crates in the current directory and runs it in a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR DOCS_RS RUSTFLAGS RUSTC_WRAPPER
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" "$w/run"
cp "$here/main.rs" "$here/helper.rs" "$w/src/"
cp "$repo/Cargo.lock" "$w/"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
lindera = { path = "$repo/lindera", features = ["filter"] }
lindera-core = { path = "$repo/lindera-core" }
lindera-dictionary = { path = "$repo/lindera-dictionary" }
lindera-dictionary-builder = { path = "$repo/lindera-dictionary-builder" }
lindera-tokenizer = { path = "$repo/lindera-tokenizer" }
lindera-analyzer = { path = "$repo/lindera-analyzer" }
lindera-filter = { path = "$repo/lindera-filter" }
lindera-compress = { path = "$repo/lindera-compress" }
lindera-decompress = { path = "$repo/lindera-decompress" }
bincode = "1"
serde_json = "1"
[profile.dev]
debug = false
incremental = false
T
cd "$w" && cargo build --offline -q >"$w/log" 2>&1 || { tail -20 "$w/log"; exit 3; }
export RUST_BACKTRACE=0
cd "$w/run" && "$w/target/debug/demo"
