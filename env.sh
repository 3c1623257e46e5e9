# Sourced by check.sh / setup.sh. Toolchain settings for building the monitors.
export HOME=/root
export LANG=${LANG:-C.UTF-8}
export PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1
export CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export PYO3_PYTHON=/opt/vp/venv/bin/python PYTHONDONTWRITEBYTECODE=1
export VERIF_TARGET=${VERIF_TARGET:-/verif/target}
export CARGO_TARGET_DIR=$VERIF_TARGET
TRIPLE=x86_64-unknown-linux-gnu

# run a build quietly; its output only appears when it fails
quiet() {
    local log; log=$(mktemp)
    if ! "$@" >"$log" 2>&1; then
        tail -40 "$log" >&2; rm -f "$log"
        return 1
    fi
    rm -f "$log"
}

# the monitors, without sanitizers
build_plain() { quiet cargo build --offline --features iofault --manifest-path harness/Cargo.toml; }

# the Python module for the interpreter in /opt/vp/venv
export VERIF_PYMOD=$VERIF_TARGET/pymod
build_py() {
    quiet env CARGO_TARGET_DIR=$VERIF_TARGET/py cargo build --offline --manifest-path pyext/Cargo.toml || return 1
    mkdir -p "$VERIF_PYMOD"
    cmp -s "$VERIF_TARGET/py/debug/libd10.so" "$VERIF_PYMOD/d10.so" || cp "$VERIF_TARGET/py/debug/libd10.so" "$VERIF_PYMOD/d10.so"
}

# the monitors, the library, the standard library and libwebp with a sanitizer: tsan, asan or msan
build_san() {
    local kind cflags
    case $1 in
        tsan) kind=thread; cflags= ;;
        # the C code's allocations go through counting functions of the monitor (alloc.rs)
        asan) kind=address; cflags="-Dmalloc=mon_malloc -Dcalloc=mon_calloc -Dfree=mon_free" ;;
        msan) kind=memory; cflags="-fsanitize-memory-track-origins" ;;
    esac
    quiet env RUSTUP_TOOLCHAIN=nightly-$TRIPLE CARGO_TARGET_DIR=$VERIF_TARGET/$1 CARGO_PROFILE_DEV_DEBUG=line-tables-only \
        CC=clang CFLAGS="-fsanitize=$kind -g1 -fno-omit-frame-pointer $cflags" RUSTFLAGS="-Zsanitizer=$kind" \
        cargo build --offline --bin mon -Zbuild-std --target $TRIPLE --manifest-path harness/Cargo.toml
}
san_bin() { echo "$VERIF_TARGET/$1/$TRIPLE/debug/mon"; }
