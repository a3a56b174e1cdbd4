#!/bin/bash
# Build the conformance harness against /repo's working tree (as tools/check.py does).
set -e
source /opt/vp/env.sh >/dev/null 2>&1 || true
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG RUSTFLAGS
export CARGO_TARGET_DIR=/verif/target
cd "$(dirname "$0")/../harness"
exec cargo build --offline --locked "$@"
