#!/bin/bash
# Builds the symbolic executor from the committed sources (offline, idempotent).
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ ! -x build/symx ] || [ -n "$(find engine -newer build/symx -name '*.[chi]*')" ]; then
  /usr/bin/g++ -std=c++20 -O2 -fexceptions -frtti -I"$Z3/include" -I/usr/lib/llvm-18/include \
    -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
    engine/symx.cpp -o build/symx.tmp \
    -L/usr/lib/llvm-18/lib -lLLVM-18 -L"$Z3/lib" -lz3 -Wl,-rpath,"$Z3/lib" -Wl,-rpath,/usr/lib/llvm-18/lib \
    -lgmpxx -lgmp
  mv build/symx.tmp build/symx
fi
echo "setup done"
