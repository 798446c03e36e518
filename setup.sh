#!/bin/bash
# builds the analysis tools from the committed sources, offline
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
clang++ -O1 -std=c++17 $(llvm-config-18 --cxxflags | sed 's/-std=c++17//;s/-fno-exceptions//') \
    tools/irtool.cc -o build/irtool $(llvm-config-18 --ldflags --libs --system-libs)
