#!/bin/bash
# everything is built by the checks themselves; warm up the build of the tool
cd "$(dirname "$0")" && . /opt/vp/env.sh >/dev/null 2>&1
export CARGO_TARGET_DIR=/repo/target
(cd /repo && cargo build --release --workspace --locked --offline) >/dev/null 2>&1 || true
exit 0
