#!/bin/bash
# Builds the verifier's Go frontend once, to fail early when the toolchain is missing.
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
out=$(mktemp -d) || exit 1
(cd govc/front && go build -o "$out/front" .) || exit 1
python3-vt -c 'import z3' || exit 1
rm -f "$out/front"; rmdir "$out"
echo ok
