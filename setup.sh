#!/bin/bash
# nothing to install: checks that the tools the engine uses are there
set -e
for t in clang++ g++ valgrind c++filt /usr/lib/llvm-18/bin/llvm-link /opt/veriftools/pyvenv/bin/python3; do command -v $t >/dev/null || { echo "missing: $t"; exit 1; }; done
/opt/veriftools/pyvenv/bin/python3 -c "import z3, numpy, scipy; print('z3', z3.get_version_string())"
mkdir -p "$(dirname "$0")/evidence"
