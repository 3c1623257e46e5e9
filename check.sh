#!/bin/bash
# ./check.sh <property> [--section S --case N]     (VERIF_SEED, VERIF_TIER from the environment)
# Rebuilds the monitors from /repo's working tree and runs one of them.
# VERIF_BUILD=plain|tsan|asan|msan restricts a property judged by several builds to one of them.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
id="$1"
failed() { echo "check error: build failed" >&2; exit 2; }

case $id in
    C24) builds="plain tsan" ;;
    C27) builds="asan msan" ;;
    *) builds="plain" ;;
esac
first=1
for b in ${VERIF_BUILD:-$builds}; do
    if [ "$b" = plain ]; then
        build_plain || failed
        case $id in C23|C31|C33) build_py || failed ;; esac
        bin="$VERIF_TARGET/debug/mon"
        unset VERIF_SAN
    else
        build_san "$b" || failed
        bin=$(san_bin "$b")
        export VERIF_SAN=$b
    fi
    export VERIF_DIV=1
    case $id-$b in
        C24-tsan) export VERIF_DIV=4 ;;
        C27-msan) export VERIF_DIV=2 ;;
    esac
    # later builds add to the evidence of the first
    if [ $first = 1 ]; then unset VERIF_MERGE; else export VERIF_MERGE=$b; fi
    "$bin" "$@"
    rc=$?
    [ $rc = 0 ] || exit $rc
    first=0
done
exit 0
