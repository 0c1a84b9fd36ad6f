#!/bin/bash
# compiles demo.rs against the library just built and runs it
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
rustc --edition 2018 -A warnings -o "$T/demo" "$D/demo.rs" --extern rawloader="$PWD/target/debug/librawloader.rlib" -L dependency="$PWD/target/debug/deps" || exit 2
timeout 200 "$T/demo" "$D" "$T" || exit 1
