#!/bin/bash
# cwd: the repository. Exit 0: behaviour is right. Non-zero: the property is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here"/*.rs "$w/src/"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/"
cat > "$w/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
clickhouse-rs = { path = "$repo" }
tokio = { version = "1", features = ["macros", "rt-multi-thread", "time", "net", "io-util"] }
futures-util = "0.3"
log = { version = "0.4", features = ["std"] }
chrono = { version = "0.4", default-features = false, features = ["std"] }
chrono-tz = "0.8"
uuid = "1"
url = "2"
EOT
cd "$w" && CARGO_TARGET_DIR="$w/target" timeout 250 cargo build --offline -q || exit 3
timeout 40 "$w/target/debug/demo"
