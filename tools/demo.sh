#!/bin/bash
# Builds and runs main.rs against /repo: exit 0 if the property held.
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "${dir:?}"' EXIT
mkdir "$dir/src" && cp "$here/main.rs" "$dir/src/main.rs" && cp /repo/Cargo.lock "$dir/Cargo.lock" || exit 3
cat > "$dir/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
paladin-core = { path = "/repo/paladin-core" }
tokio = { version = "1", features = ["full"] }
serde = "1"
anyhow = "1"
futures = "0.3"
async-trait = "0.1"
T
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$dir/target" CARGO_PROFILE_DEV_DEBUG=0
unset RUSTFLAGS
(cd "$dir" && cargo build --offline -q) || exit 3
timeout 100 "$dir/target/debug/demo"
