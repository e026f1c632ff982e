#!/bin/bash
# Builds demo.cc against the library built from the current tree and runs it.
w=$(mktemp -d) || exit 2
trap 'rm -rf -- "$w"' EXIT
g++ -std=c++11 -w -O1 -Dno_TRICK_ENV=1 -I. -Icore -Iaspects -Ims-utils -Igunns-ts-models "$(dirname "$0")/demo.cc" _build/libgunns.a -lpthread -o "$w/demo" || exit 2
cd "$w" && timeout 120 ./demo
