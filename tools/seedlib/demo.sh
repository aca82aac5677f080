#!/bin/bash
# Builds the library from the current directory's sources in a scratch directory and runs demo.cpp against it.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
F="-std=c++11 -O1 -w -DLINUX -D__USE_LONG_INTEGERS__ -D__USE_LONG_FINTS__ -DSOLVER_NONE -D__NO_COPYRIGHT__ -I$PWD/include"
ls src/*.cpp | xargs -P8 -I{} sh -c "g++ $F -c {} -o $T/\$(basename {}).o" || exit 2
g++ $F "$D/demo.cpp" "$T"/*.o -o "$T/demo" || exit 2
cd "$T" && timeout 250 ./demo
