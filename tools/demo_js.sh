#!/bin/bash
# Builds the main.rs beside this script as a Node addon over the safer_ffi of the current directory, in a
# scratch folder, and runs main.js with it. Exit 0: the property held.
D=$(cd "$(dirname "$0")" && pwd)
SRC=$PWD
T=$(mktemp -d) || exit 3
trap 'rm -rf -- "$T"' EXIT
mkdir -p "$T/src"
cp "$D/main.rs" "$T/src/lib.rs"
cp -r "$D/napi" "$D/napi-derive" "$D/Cargo.lock" "$T/"
cat > "$T/Cargo.toml" <<X
[package]
name = "js_addon"
version = "0.1.0"
edition = "2021"
[workspace]
[lib]
crate-type = ["cdylib"]
[dependencies]
futures = "0.3.15"
safer-ffi = { path = "$SRC", features = ["js"] }
[patch."https://github.com/getditto/napi-rs"]
napi = { path = "napi" }
napi-derive = { path = "napi-derive" }
[profile.dev]
debug = 0
X
unset RUSTC_BOOTSTRAP RUSTFLAGS
export RUSTUP_TOOLCHAIN=1.72.1 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$T/target CARGO_INCREMENTAL=0 RUST_BACKTRACE=0
cd "$T" || exit 3
cargo build -q --offline 2> "$T/log" || { tail -30 "$T/log"; echo "demo did not build"; exit 2; }
cp target/debug/libjs_addon.so addon.node
timeout 60 node --expose-gc --unhandled-rejections=strict "$D/main.js" "$T/addon.node"
