#!/bin/bash
# Compiles the program beside this script against /repo's crates and runs it; everything happens in one scratch directory.
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=/tmp/vp-demo-@ID@
rm -rf /tmp/vp-demo-@ID@
trap 'rm -rf /tmp/vp-demo-@ID@' EXIT
mkdir -p $T/src
cp "$HERE/main.rs" $T/src/main.rs
[ -f "$HERE/prelude.rs" ] && cp "$HERE/prelude.rs" $T/src/prelude.rs
cp /repo/Cargo.lock $T/Cargo.lock
cat > $T/Cargo.toml <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
@DEPS@
END
cd $T || exit 3
CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=$T/target cargo build -q --offline >$T/log 2>&1 || { tail -20 $T/log; exit 4; }
timeout 60 $T/target/debug/demo
