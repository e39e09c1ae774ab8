#!/bin/bash
# compiles demo.cpp beside this script against /repo's sources and library and runs it in a scratch folder
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
I="-I/repo -I/repo/src -I/repo/generated -I/repo/src/gdlib -I/repo/src/rtl -I/repo/src/global -I/repo/zlib"
g++ -std=c++17 -O1 -w $I "$here/demo.cpp" -o "$t/demo" /repo/build/libgdx-static.a $(ls /repo/build/*.a | grep -v libgdx-static) -lz -lpthread -ldl 2>"$t/log" || { cat "$t/log"; echo "demo does not build"; exit 2; }
cd "$t" && timeout 120 ./demo
