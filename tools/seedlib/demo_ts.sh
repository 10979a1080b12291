#!/bin/bash
# Runs demo.cjs: the extension's sources, loaded with stand-ins for VS Code and the driver (harness.cjs).
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
timeout 100 node "$D/demo.cjs" 2>&1 | tail -40
exit ${PIPESTATUS[0]}
