#!/bin/bash
# Compiles demo.cpp against the built library and runs it in a scratch directory; exit 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export OMPI_MCA_ess_singleton_isolated=1
NP=1; FLAGS=""
[ -f "$here/demo.conf" ] && . "$here/demo.conf"
work=$(mktemp -d /tmp/efdemo.XXXXXX) || exit 2
trap 'rm -r "$work"' EXIT
cd "$work" || exit 2
cat > hst.h <<'H'
#pragma once
#pragma weak hstcrt_
H
src=$(ls "$repo"/src/*.cpp "$repo"/src/Patches/FiniteVolume/*.cpp)
lib="$repo/_build/src/libEllipticForest.a"
[ -f "$lib" ] || lib="$src"
[ -n "$FROM_SOURCE" ] && lib="$src"
mpicxx -std=gnu++20 -O1 -w $FLAGS -DUSE_PETSC -include "$here/shim.h" -include hst.h -I"$here" -I"$repo/src" -I"$repo/src/Patches/FiniteVolume" \
  -I/usr/lib/petsc/include "$here/demo.cpp" "$here/shim.cpp" $lib -o demo -llapack -lblas -lsc -lp4est -lz -L/usr/lib/petsc/lib -lpetsc -lpthread >build.log 2>&1 || { tail -20 build.log; echo "demo does not build"; exit 2; }
if [ "$NP" = 1 ]; then timeout 120 ./demo >out.log 2>&1; rc=$?
else timeout 120 mpirun --oversubscribe -np "$NP" ./demo >out.log 2>&1; rc=$?; fi
grep -a '^DEMO' out.log | head -20
[ $rc = 0 ] && echo "demo: as it should be" || echo "demo: wrong (exit $rc)"
exit $rc
