#!/bin/bash
# Run in the root of the repository after its build: exit 0 if the property holds.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src" "$W/home" "$W/tmp"
cp "$D/main.rs" "$W/src/main.rs"
cp "$D/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
iota_stronghold = { path = "$R/client" }
engine = { package = "stronghold_engine", path = "$R/engine" }
runtime = { package = "stronghold-runtime", path = "$R/engine/runtime" }
stronghold_stm = { package = "stronghold-stm", path = "$R/stm" }
libc = "0.2"
crypto = { package = "iota-crypto", version = "0.18.0", default-features = false, features = ["x25519"] }
T
cd "$W" || exit 3
CARGO_TARGET_DIR="$W/target" cargo build --release --offline >"$W/log" 2>&1 || { tail -30 "$W/log"; exit 3; }
HOME="$W/home" XDG_DATA_HOME="$W/home" STRONGHOLD="$W/home" TMPDIR="$W/tmp" timeout -k 5 150 "$W/target/release/demo"
rc=$?
echo "demo exit $rc"
exit $rc
