#!/bin/bash
# Builds one reproduction against the library in /repo/_build and runs it.
# usage: run.sh NAME   exit 0 = behaves, anything else = the defect shows
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -fconcepts -O2 -DNDEBUG -I/repo/include "$here/$1.cpp" /repo/_build/out/linux/x86_64/release/libcocpp.a -lpthread -o "$tmp/a" || exit 99
timeout ${2:-20} "$tmp/a"
echo "exit $?"
