#!/bin/sh
# Everything is built from /repo's current tree when a check runs; here only
# verify that the tools the checks call are present.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
for t in goto-cc cbmc gcc clang z3 cvc5 python3; do command -v "$t" >/dev/null || { echo "missing tool: $t"; exit 1; }; done
echo "setup ok"
