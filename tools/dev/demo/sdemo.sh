#!/bin/bash
# builds the demonstration with /repo's service sources and library and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "${w:?}"' EXIT
f="-std=gnu++17 -w -g -DNDEBUG $(pkg-config --cflags apr-1 xerces-c icu-uc) -I$repo/src/framework -I$repo/src/cas -I$repo/src/utils -I$here -I$here/stub"
l="-L$repo/_build/prefix/lib -luima $(pkg-config --libs apr-1 xerces-c icu-uc) -ldl -lpthread"
g++ $f -fPIC -shared "$here/ann.cpp" -o "$w/ann.so" $l || exit 2
for u in ActiveMQAnalysisEngineService deployCppService; do
  g++ $f -Dmain=deploy_main -DU_USING_ICU_NAMESPACE=1 -c "$repo/src/utils/$u.cpp" -o "$w/$u.o" & p="$p $!"
done
g++ $f -c "$here/demo.cpp" -o "$w/demo.o" || exit 2
for i in $p; do wait $i || exit 2; done
g++ -rdynamic "$w"/*.o -o "$w/demo" $l || exit 2
cd "$w" && LD_LIBRARY_PATH="$repo/_build/prefix/lib:$w" timeout 120 ./demo
