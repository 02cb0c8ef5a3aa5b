#!/bin/bash
# builds and runs the demonstration; run with cwd /repo after the build
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -g -DCHRONO_UTILITIES_TIMESPAN_INTEGER_SCALE_OVERLOADS -DCPP_UTILITIES_USE_NATIVE_FILE_BUFFER -DTAG_PARSER_STATIC \
    -I_build/shim -I/usr/include/martchus-c++utilities -I"$here" "$here/demo.cpp" -o "$tmp/demo" \
    _build/libtagparser.a -l:libmartchus-c++utilities.so -lz -lcrypto || exit 3
cd "$tmp" && timeout 60 ./demo
