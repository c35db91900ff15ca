#!/bin/bash
# Builds demo.cpp against the library in the current directory and runs it in a scratch directory: 0 if it behaves, 1 if not.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
tmp=$(mktemp -d) || exit 3; trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/fs"
F="-D_WIN64=1 -I$here/winshim -I$here -DGEN_TIME -fms-extensions -fshort-wchar -fno-exceptions -fdelayed-template-parsing -std=c++17 -Wno-everything -g1 -O0 -DGEN_BUILD_DEBUG=0 -I$repo/base"
clang++ -fshort-wchar -O1 -w -c "$here/winshim/winshim.cpp" -o "$tmp/shim.o" || exit 1
clang++ $F @SAN@ "$here/demo.cpp" "$tmp/shim.o" -o "$tmp/demo" || exit 1
cd "$tmp/fs" && VF_FSROOT="$tmp/fs" ASAN_OPTIONS=detect_leaks=0:abort_on_error=0 timeout 60 "$tmp/demo" || exit 1
