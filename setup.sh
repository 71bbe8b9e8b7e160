#!/bin/bash
# Builds the bitcode reader the analyses use (tools/irdump.cpp -> build/irdump).
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
if [ ! -x build/irdump ] || [ tools/irdump.cpp -nt build/irdump ]; then
  clang++-18 -O1 -fno-rtti $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//') -std=c++17 \
    tools/irdump.cpp -o build/irdump.$$ $(llvm-config-18 --ldflags) -lLLVM-18
  mv build/irdump.$$ build/irdump
fi
if [ ! -x build/astscan ] || [ tools/astscan.cpp -nt build/astscan ]; then
  clang++-18 -O0 -fno-rtti $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//') -std=c++17 \
    tools/astscan.cpp -o build/astscan.$$ $(llvm-config-18 --ldflags) -l:libclang-cpp.so.18.1 -lLLVM-18
  mv build/astscan.$$ build/astscan
fi
