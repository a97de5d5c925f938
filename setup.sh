#!/bin/bash
# Warms the Go build cache and makes sure that the specifications parse; every check builds what it needs itself.
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence replay
python3 - <<'P' || exit 1
import sys
sys.path.insert(0, 'lib')
from core import *
build()
P
echo ready
