#!/bin/bash
# nothing to install: the checks use python3-vt (z3), clang and the FLINT headers of the sandbox
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
python3-vt -c 'import z3' && clang --version > /dev/null
