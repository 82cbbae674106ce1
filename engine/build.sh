#!/bin/bash
# builds the symbolic executor: engine/build/symx
set -e
cd "$(dirname "$0")"; mkdir -p build
L=/usr/lib/llvm-18
if [ build/symx -nt symx.cpp ] && [ build/symx -nt solver.h ] && [ build/symx -nt expr.h ] && [ build/symx -nt step.inc ] && [ build/symx -nt builtins.inc ] && [ build/symx -nt builtins_impl.inc ] && [ build/symx -nt run.inc ] && [ build/symx -nt main.inc ]; then exit 0; fi
$L/bin/clang++ -std=c++17 -O2 -w -I$($L/bin/llvm-config --includedir) symx.cpp -o build/symx.tmp $($L/bin/llvm-config --ldflags --libs core irreader support demangle) -lz3 -lpthread
mv build/symx.tmp build/symx
