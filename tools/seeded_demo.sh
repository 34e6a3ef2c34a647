#!/bin/bash
# Builds main.rs against the crates of the repository in the current directory, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$here/prelude.rs" "$d/src/"
[ -e "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
ucan = { path = "$repo/ucan" }
ucan-key-support = { path = "$repo/ucan-key-support" }
anyhow = "1"
async-trait = "0.1"
base64 = "0.21"
bs58 = "0.5"
cid = "0.10"
ed25519-zebra = "3.1"
libipld-core = { version = "0.16", features = ["serde-codec", "serde"] }
serde_json = "1"
serde_ipld_dagcbor = "0.3"
url = "2"
[profile.dev]
debug = 0
T
cd "$d" || exit 99
CARGO_TARGET_DIR="$d/target" cargo build --offline >"$d/log" 2>&1 || { tail -40 "$d/log"; exit 99; }
timeout 60 "$d/target/debug/demo"
