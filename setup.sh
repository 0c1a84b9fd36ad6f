#!/bin/bash
# Nothing to install: every check builds what it needs from the committed files and /repo. This only warms the build cache.
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export RUSTFLAGS="-A semicolon_in_expressions_from_macros -A warnings" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" CARGO_INCREMENTAL=0
( cd harness && cargo build --offline -q --lib; cargo build --offline -q --lib --release )
bash sched/build.sh
CARGO_TARGET_DIR="$PWD/target/repo" cargo build --offline -q --manifest-path /repo/Cargo.toml --bin rawloader
exit 0
