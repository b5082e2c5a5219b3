#!/bin/bash
# The checks build what they need from /repo themselves; this only verifies that the tools are here.
cd "$(dirname "$0")" || exit 1
for t in java gcc python3 /opt/veriftools/pyvenv/bin/python; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p build evidence
/opt/veriftools/pyvenv/bin/python - <<'P'
import sys; sys.path.insert(0, 'lib')
import vc
print(vc.build_lib())
P
