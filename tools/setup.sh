#!/bin/bash
# Nothing to install: checks need the interpreter, clang and g++ of the sandbox only.
cd "$(dirname "$0")/.." && mkdir -p .work/obj evidence replay && python3-vt -c 'import z3' && clang++-18 --version > /dev/null 2>&1 || clang++ --version > /dev/null
