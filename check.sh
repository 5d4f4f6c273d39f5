#!/bin/bash
# check.sh PROPERTY: analyses /repo's current sources. Exit 0 held, 1 violated, anything else: no answer.
cd "$(dirname "$0")" || exit 2
newest=$(ls -t src/fpv/*.java | head -1)
if [ ! -f build/fpv/Main.class ] || [ "$newest" -nt build/fpv/Main.class ]; then
  bash setup.sh || exit 2
fi
exec java -Xmx12g -Xss16m -cp build:lib/asm-9.7.1.jar:lib/asm-tree-9.7.1.jar \
  -Dfpv.repo="${FPV_REPO:-/repo}" -Dfpv.evidence="${FPV_EVIDENCE:-evidence}" fpv.Main "$1"
