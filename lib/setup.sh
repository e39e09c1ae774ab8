#!/bin/bash
# nothing to install: every check builds what it needs from /repo's working tree
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence .build .replay
command -v clang++ >/dev/null && command -v python3 >/dev/null
