#!/bin/bash
# builds main.rs against the tree in the current directory and runs it; everything is written to a scratch directory
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf -- "$d"' EXIT
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$d/target CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 RUSTC_WRAPPER=
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
mkdir -p "$d/p/src"
cp "$here/main.rs" "$d/p/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/p/Cargo.lock"
client=
grep -q socket_io_client "$here/main.rs" && client="socket-io-client = { path = \"$repo/socket-io-client\" }
async-tungstenite = { version = \"0.7\", features = [\"async-tls\"] }
futures = { version = \"0.3.5\", features = [\"thread-pool\"] }"
cat > "$d/p/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
owned_subslice = { path = "$repo/owned_subslice" }
socket-io-protocol = { path = "$repo/socket-io-protocol" }
serde = { version = "1.0", features = ["derive"] }
serde_json = { version = "1.0", features = ["raw_value"] }
tungstenite = "0.11"
$client
[workspace]
T
cd "$d/p" || exit 3
cargo build --offline -q 2> "$d/log" || { tail -30 "$d/log"; echo "demo does not build"; exit 3; }
timeout 60 "$d/target/debug/demo"
