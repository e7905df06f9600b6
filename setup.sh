#!/bin/bash
# Builds the operating-system seam and the package's extensions (out of tree, cached by source hash).
set -e
cd "$(dirname "$0")"
exec python3 -c "
import sys; sys.path.insert(0, '.')
sys.dont_write_bytecode = True
from dst import build
print(build.build_libsim()); print(build.build_ext())"
