#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it; all output stays in a scratch directory.
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$D/demo.rs" "$W/src/main.rs"
printf '[package]\nname="demo"\nversion="0.1.0"\nedition="2021"\n[dependencies]\nfundsp={path="%s"}\n[workspace]\n' "$R" > "$W/Cargo.toml"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$W/Cargo.lock"
cd "$W" && CARGO_TARGET_DIR="$W/target" timeout 280 cargo run --offline -q
