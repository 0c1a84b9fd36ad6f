#!/bin/bash
# decodes case.raw with the library just built and compares the result with expected.txt
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
rustc --edition 2018 -A warnings -o "$T/dump" "$D/dump.rs" --extern rawloader="$PWD/target/debug/librawloader.rlib" -L dependency="$PWD/target/debug/deps" || exit 2
timeout 200 "$T/dump" "$D/case.raw" $(cat "$D/args.txt") > "$T/out.txt" || { echo "decoder died"; exit 1; }
python3 - "$T/out.txt" "$D/expected.txt" <<'P'
import sys
a=open(sys.argv[1]).read().split(); b=open(sys.argv[2]).read().split()
def same(x,y):
    if x==y: return True
    try: x=float(x); y=float(y)
    except ValueError: return False
    return '.' in (sys.argv[0]+'.') and abs(x-y)<=1e-4*max(1e-2,abs(y)) and x!=int(x)
if len(a)!=len(b): print("different amount of output",len(a),len(b)); sys.exit(1)
for i,(x,y) in enumerate(zip(a,b)):
    if not same(x,y): print("token",i,"is",x,"expected",y); sys.exit(1)
P
