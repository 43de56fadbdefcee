#!/bin/bash
# Builds the symbolic executor into /verif/engine/build (git-ignored).
cd "$(dirname "$0")" || exit 2
mkdir -p build
CFG=/usr/lib/llvm-18/bin/llvm-config
# Prefer the newer Z3 of the Python tooling; fall back on the system library.
Z3D=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -e $Z3D/lib/libz3.so ] && [ -e $Z3D/include/z3.h ]; then
    Z3I="-I$Z3D/include"; Z3L="$Z3D/lib/libz3.so -Wl,-rpath,$Z3D/lib"
else
    Z3I=""; Z3L="-lz3"
fi
FLAGS="$Z3I $($CFG --cxxflags) -O2 -std=c++17 -fno-rtti -fexceptions -w"
exec 9>build/.lock
flock 9
pids=()
for f in expr solver intsolve lower engine; do
    if [ ! -e build/$f.o ] || [ -n "$(find . -maxdepth 1 \( -name $f.cpp -o -name '*.h' -o -name build.sh \) -newer build/$f.o)" ]; then
        /usr/bin/g++ $FLAGS -c $f.cpp -o build/$f.o & pids+=($!)
    fi
done
for p in "${pids[@]}"; do wait $p || exit 2; done
if [ ! -e build/symex ] || [ -n "$(find build -name '*.o' -newer build/symex)" ]; then
    /usr/bin/g++ build/*.o -o build/symex.tmp $($CFG --ldflags) -lLLVM-18 $Z3L -lpthread && mv build/symex.tmp build/symex || exit 2
fi
