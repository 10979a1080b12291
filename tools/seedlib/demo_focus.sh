#!/bin/bash
# Builds the drivers from a scratch copy of the current directory and runs cases.py, which calls them on scratch crates.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; S=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$S"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=$(sed -n 's/^channel *= *"\(.*\)"/\1/p' "$R/rust-toolchain.toml")
mkdir "$S/w" && cp -a "$R/Cargo.toml" "$R/Cargo.lock" "$R/rust-toolchain.toml" "$R/crates" "$S/w/" || exit 3
cd "$S/w" && CARGO_TARGET_DIR=${DEMO_TARGET:-$S/target} timeout 250 cargo build -p flowistry_ide -p flowistry_ifc --bins --offline > "$S/build.log" 2>&1 || { tail -20 "$S/build.log"; exit 3; }
T=${DEMO_TARGET:-$S/target}
export LD_LIBRARY_PATH=$(rustc --print sysroot)/lib PATH=$T/debug:$PATH SCRATCH=$S REPO=$S/w
cd "$S" && PYTHONDONTWRITEBYTECODE=1 timeout 120 python3 "$D/cases.py" 2>&1 | tail -40
exit ${PIPESTATUS[0]}
