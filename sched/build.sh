#!/bin/bash
# builds the schedule explorer from /repo's working tree with scheduling points at atomic operations
cd "$(dirname "$0")" || exit 3
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$PWD/../target/sched"
export RUSTFLAGS="-A semicolon_in_expressions_from_macros -A warnings -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer"
exec cargo +nightly build --offline -q --target x86_64-unknown-linux-gnu "$@"
