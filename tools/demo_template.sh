#!/bin/bash
# builds demo.rs against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS RUST_LOG
mkdir -p "$tmp/p/src"
cp "$here/demo.rs" "$tmp/p/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/p/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$tmp/p/Cargo.lock"
cat > "$tmp/p/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
cres = { path = "$repo", features = ["capi", "stripper-xml"] }
noisy_float = { version = "0.2", features = ["serde"] }
particle_id = { version = "0.5", features = ["serde"] }
rayon = "1.5"
log = "0.4"
rand = "0.9"
rand_xoshiro = "0.7"
parking_lot = "0.12"
[workspace]
T
cd "$tmp/p" && CARGO_TARGET_DIR="$repo/target" cargo build --offline >"$tmp/log" 2>&1 || { tail -30 "$tmp/log"; echo "demo does not build"; exit 3; }
mkdir "$tmp/work" && cd "$tmp/work" && timeout 250 "$repo/target/debug/demo"
