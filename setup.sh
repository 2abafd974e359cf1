#!/bin/bash
# Nothing is built ahead of time: every check compiles the harness together
# with /repo's current sources.  This only makes sure the tools are there.
set -e
cd "$(dirname "$0")"
for t in /usr/bin/clang++ /usr/bin/g++ python3-vt z3-new cvc5; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3-vt -c 'import z3, cvc5; from engine import llvmc, machine, solve; print("engine ok, z3", z3.get_version_string())'
mkdir -p evidence replays
