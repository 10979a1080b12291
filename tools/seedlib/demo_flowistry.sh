#!/bin/bash
# Runs probe.rs as an integration test of the flowistry crate, in a scratch copy of the current directory.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; S=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$S"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
mkdir "$S/w" && cp -a "$R/Cargo.toml" "$R/Cargo.lock" "$R/rust-toolchain.toml" "$R/crates" "$S/w/" || exit 3
cp "$D/probe.rs" "$S/w/crates/flowistry/tests/verif_probe.rs" || exit 3
cd "$S/w" && CARGO_TARGET_DIR=${DEMO_TARGET:-$S/target} timeout 280 cargo test -p flowistry --test verif_probe --offline 2>&1 | tail -40
exit ${PIPESTATUS[0]}
