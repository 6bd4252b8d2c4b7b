#!/bin/bash
# Builds the IR dumper used by every check into /verif/build (git-ignored).
set -e
cd "$(dirname "$0")"
mkdir -p build
L=/usr/lib/llvm-18/bin/llvm-config
if [ ! -x build/irdump ] || [ tools/irdump/irdump.cpp -nt build/irdump ]; then
  T=$(mktemp -p build irdump.XXXXXX)
  g++ -std=c++17 -O1 -fno-rtti $($L --cppflags) tools/irdump/irdump.cpp -o "$T" $($L --ldflags --libs)
  chmod 755 "$T"; mv "$T" build/irdump
fi
echo setup-ok
