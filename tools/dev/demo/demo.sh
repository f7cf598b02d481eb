#!/bin/bash
# builds the demonstration against /repo's build and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "${w:?}"' EXIT
f="-std=gnu++17 -w -g -DNDEBUG $(pkg-config --cflags apr-1 xerces-c icu-uc) -I$repo/src/framework -I$repo/src/cas -I$here"
l="-L$repo/_build/prefix/lib -luima $(pkg-config --libs apr-1 xerces-c icu-uc) -ldl -lpthread"
if [ -f "$here/ann.cpp" ]; then g++ $f -fPIC -shared "$here/ann.cpp" -o "$w/ann.so" $l || exit 2; fi
g++ $f -rdynamic "$here/demo.cpp" -o "$w/demo" $l || exit 2
cd "$w" && LD_LIBRARY_PATH="$repo/_build/prefix/lib:$w" timeout 120 ./demo
