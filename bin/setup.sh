#!/bin/bash
# builds the extraction tool from the committed source (git-ignored output in /verif/build)
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p "$V/build"
if [ ! -x "$V/build/irc" ] || [ "$V/tool/irc.cpp" -nt "$V/build/irc" ]; then
  clang++ -O1 -std=c++17 $(llvm-config-18 --cxxflags) -fexceptions "$V/tool/irc.cpp" -o "$V/build/irc.$$" $(llvm-config-18 --ldflags) -lLLVM-18
  mv "$V/build/irc.$$" "$V/build/irc"
fi
