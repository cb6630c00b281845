#!/bin/sh
# Builds the library's current sources (cwd: repository root) with the demonstration beside this file and runs it.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
INC=$(find src -name '*.h' -exec dirname {} \; | sort -u | sed 's/^/-I/')
gcc -std=gnu11 -w -g -fsanitize=address -o "$W/demo" $INC -I"$D" "$D/demo.c" $(find src -name '*.c') || exit 3
ASAN_OPTIONS=detect_leaks=0 "$W/demo"
