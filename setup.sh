#!/bin/sh
# Nothing is prebuilt: every check rebuilds /repo's working tree. Verify that the tools are there.
set -e
for t in gcc clang python3 ar valgrind; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p evidence out
exit 0
