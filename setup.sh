#!/bin/sh
# everything a check needs is built lazily (build/ is not committed); this only checks the tools and warms the extractor
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
for t in clang++-18 g++ z3-new cvc5; do command -v $t >/dev/null || { echo "missing tool $t"; exit 1; }; done
[ -x /opt/veriftools/pyvenv/bin/python3 ] || { echo "missing python tooling venv"; exit 1; }
/opt/veriftools/pyvenv/bin/python3 -c "
import sys; sys.path.insert(0,'engine'); sys.argv=['check.py','setup']
import check; print(check.extractor())" || exit 1
