#!/bin/bash
# Nothing is kept between runs (each check builds /repo's working tree itself);
# just make sure that what the checks need is here.
set -e
cd "$(dirname "$0")"
for t in g++ clang++ python3-vt; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3-vt -c 'import numpy, scipy'
mkdir -p evidence replays
