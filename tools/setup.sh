#!/bin/bash
# The checks build what they need from /repo's current tree; setup only verifies the tools.
set -e
for t in clang clang++ cmake ninja python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
clang++ --version | head -1
