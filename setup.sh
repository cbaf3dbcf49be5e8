#!/bin/bash
# Builds the replayer once (checks rebuild what changed) and checks that the tools are there.
set -e
cd "$(dirname "$0")"
V=$PWD
python3-vt -c 'import z3, cvc5'
mkdir -p evidence replays .build
python3 -c "
import sys; sys.path.insert(0,'$V')
import check
print(check.build('$V/.build'))"
