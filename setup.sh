#!/bin/bash
# builds the symbolic executor and compiles /repo's current sources to LLVM IR (each check does the same when needed)
cd "$(dirname "$0")" && bash engine/build.sh && python3 -c "
import sys; sys.path.insert(0,'lib'); import build
lib,bad=build.repo_library(); print('ok',lib,sorted(bad))"
