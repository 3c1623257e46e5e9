#!/bin/bash
# Builds the monitors once (checks rebuild incrementally from /repo's working tree).
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
build_plain || exit 1
build_py || exit 1
for s in tsan asan msan; do
    build_san $s || exit 1
done
