#!/bin/bash
# bash check.sh <property id> [--only JOB | --replay JOB:CASE | --list]
# Builds the check of one property from /repo's working tree and runs it (VERIF_TIER=quick|thorough).
cd "$(dirname "$0")" || exit 3
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export RUSTFLAGS="-A semicolon_in_expressions_from_macros -A warnings" CARGO_NET_OFFLINE=true
export VERIF_DIR="$PWD" VERIF_REPLAYS="$PWD/replays"
export CARGO_TARGET_DIR="$PWD/target" CARGO_INCREMENTAL=0
ID=$1; shift
bin=$(echo "$ID" | tr A-Z a-z)
log=$(mktemp)
trap 'rm -f "$log"' EXIT
build() { ( cd "$1" && cargo build --offline -q "${@:2}" ) >"$log" 2>&1 || { cat "$log"; echo "BUILD FAILED"; exit 3; }; }
case $ID in
C01)
  # the same exploration in release arithmetic (no overflow checks), then with overflow checks
  build harness --bin c01 --release
  build harness --bin c01
  part=$(mktemp)
  trap 'rm -f "$log" "$part"' EXIT
  if [ $# = 0 ]; then VERIF_PART="$part" target/release/c01 "$@" || exit $?; fi
  [ -n "$VERIF_RELEASE" ] && { target/release/c01 "$@"; exit $?; }
  VERIF_ADD="$part" target/debug/c01 "$@"; exit $? ;;
C14)
  # the library on a replacement of the thread pool, every atomic operation a scheduling point
  bash sched/build.sh >"$log" 2>&1 || { cat "$log"; echo "BUILD FAILED"; exit 3; }
  target/sched/x86_64-unknown-linux-gnu/debug/sched "$@"; exit $? ;;
C15)
  # many forks of a process with a large heap: large pages make them cheap
  build harness --bin c15
  GLIBC_TUNABLES=glibc.malloc.hugetlb=1:glibc.malloc.top_pad=67108864 target/debug/c15 "$@"; exit $? ;;
C20)
  build harness --bin c20
  ( CARGO_TARGET_DIR="$PWD/target/repo" cargo build --offline -q --manifest-path /repo/Cargo.toml --bin rawloader ) >"$log" 2>&1 || { cat "$log"; echo "BUILD FAILED"; exit 3; }
  gcc -O1 -shared -fPIC -o target/fault.so shim/fault.c >"$log" 2>&1 || { cat "$log"; echo "BUILD FAILED"; exit 3; }
  scratch=$(mktemp -d); chmod 755 "$scratch"
  trap 'rm -f "$log"; rm -rf "$scratch"' EXIT
  TMPDIR="$scratch" VERIF_BINARY="$PWD/target/repo/debug/rawloader" VERIF_FAULT="$PWD/target/fault.so" target/debug/c20 "$@"; exit $? ;;
*)
  build harness --bin "$bin"
  target/debug/$bin "$@"; exit $? ;;
esac
