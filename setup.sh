#!/bin/bash
# Nothing is cached between runs: every check builds its own harness. This only verifies the toolchain.
set -e
/usr/bin/clang++-20 --version | head -1
python3 -c 'import sys; sys.path.insert(0, "'"$(dirname "$0")"'"); sys.dont_write_bytecode = True; import props; print(len(props.PROPS), "properties configured")'
