#!/bin/bash
# main.rs has to be accepted by rustc with the safer_ffi of the current directory, refused.txt has not to be.
# Exit 0: the property held.
D=$(cd "$(dirname "$0")" && pwd)
SRC=$PWD
T=$(mktemp -d) || exit 3
trap 'rm -rf -- "$T"' EXIT
FEATURES=$(cat "$D/features" 2>/dev/null)
mkdir -p "$T/src" "$T/napi/src" "$T/napi-derive/src"
cp "$D"/*.rs "$T/src/"
[ -e "$D/driver.c" ] && cp "$D/driver.c" "$T/"
printf '[package]\nname="napi"\nversion="1.3.2"\nedition="2021"\n[features]\nnapi4=[]\ntokio_rt=[]\n' > "$T/napi/Cargo.toml"
printf '[package]\nname="napi-derive"\nversion="1.0.0"\nedition="2021"\n' > "$T/napi-derive/Cargo.toml"
: > "$T/napi/src/lib.rs"; : > "$T/napi-derive/src/lib.rs"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
safer-ffi = { path = "$SRC", features = [$FEATURES] }
[patch."https://github.com/getditto/napi-rs"]
napi = { path = "napi" }
napi-derive = { path = "napi-derive" }
[profile.dev]
debug = 0
X
[ -e "$D/deps" ] && sed -i "/^safer-ffi/r $D/deps" "$T/Cargo.toml"
cp /opt/vp/ws/Cargo.lock "$T/Cargo.lock"
unset RUSTC_BOOTSTRAP RUSTFLAGS
export RUSTUP_TOOLCHAIN=1.72.1 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$T/target CARGO_INCREMENTAL=0
cd "$T" || exit 3
cargo check -q --offline 2> "$T/log" || { tail -30 "$T/log"; echo "what has to be accepted is refused"; exit 2; }
cp "$D/refused.txt" "$T/src/main.rs"
if cargo check -q --offline 2> "$T/log"; then echo "accepted:"; cat "$D/refused.txt"; exit 1; fi
tail -12 "$T/log"
exit 0
