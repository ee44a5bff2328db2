#!/bin/bash
# check.sh ID            explore one property (VERIF_TIER=quick|thorough, VERIF_SEED)
# check.sh ID thorough   the same, with the thorough tier
# check.sh replay FILE   evaluate one saved case
# check.sh setup         build everything
# Exit: 0 held, 1 violated, 2 no answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS MIRIFLAGS CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
export NOMCHECK_ROOT=$here
cd "$here/harness" || exit 2
mkdir -p "$here/replays" "$here/evidence"

# Cargo compares modification times; a tree that was put in place with older
# ones must be rebuilt all the same.
sources=$(cd "$here/../repo" && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
fresh() { # target directory
    local dir=$here/harness/target/$1
    mkdir -p "$dir"
    if [ "$(cat "$dir/.sources" 2>/dev/null)" != "$sources" ]; then
        find "$dir" -path '*/.fingerprint/nominals-*' -delete
    fi
    echo "$sources" >"$dir/.sources"
}

build_one() { # alloc | noalloc, dev | plain
    local dir=$1 log
    local args=()
    [ "$2" = plain ] && dir=$1-plain
    [ "$1" = noalloc ] && args=(--no-default-features --features native)
    log=$here/harness/target/build-$dir.log
    mkdir -p "$here/harness/target/$dir"
    fresh "$dir"
    cargo build --offline --locked --bin nomcheck --profile "$2" "${args[@]}" \
        --target-dir "target/$dir" >"$log" 2>&1 && return 0
    cat "$log" >&2
    echo "build failed ($dir)" >&2
    return 2
}

# The coverage-guided engine. Without it a check still says what it found.
build_fuzz() { # alloc | noalloc
    local dir=fuzz-$1 lib log
    lib=$(ls /usr/lib/llvm-*/lib/clang/*/lib/linux/libclang_rt.fuzzer-x86_64.a 2>/dev/null | head -1)
    log=$here/harness/target/build-$dir.log
    mkdir -p "$here/harness/target/$dir"
    fresh "$dir"
    local features=fuzz
    [ "$1" = alloc ] && features=fuzz,alloc
    RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 \
-Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table \
-Cllvm-args=-sanitizer-coverage-trace-compares -Clink-arg=$lib -Clink-arg=-lstdc++" \
        cargo build --offline --locked --bin nomfuzz --target x86_64-unknown-linux-gnu \
        --no-default-features --features $features --target-dir "target/$dir" >"$log" 2>&1 && return 0
    tail -20 "$log" >&2
    echo "build failed ($dir)" >&2
    return 2
}

build() { # alloc | noalloc: both as for tests (dev) and as for use (plain)
    if [ "${2:-}" = dev ]; then
        build_one "$1" dev || exit 2
        return
    fi
    build_one "$1" plain &
    local other=$!
    if [ "${2:-}" = fuzz ]; then
        build_fuzz "$1" &
        local fuzz=$!
    fi
    build_one "$1" dev || exit 2
    wait "$other" || exit 2
    if [ "${2:-}" = fuzz ]; then
        wait "$fuzz"
        fuzz_built=$?
    fi
}

case "${1:-}" in
setup)
    build alloc fuzz
    build noalloc fuzz
    fresh miri-alloc
    fresh miri-noalloc
    "$here/harness/target/alloc/debug/nomcheck" warm || exit 2
    exit 0
    ;;
replay)
    file=$(cd / && readlink -f -- "$2" 2>/dev/null || true)
    [ -f "$file" ] || file=$(readlink -f -- "$OLDPWD/$2")
    kind=alloc
    grep -q '"property": *"C24"' "$file" && kind=noalloc
    profile=debug
    grep -q '"release": *true' "$file" && profile=plain
    build $kind
    fresh miri-alloc
    fresh miri-noalloc
    [ $profile = plain ] && exec "target/$kind-plain/plain/nomcheck" replay "$file"
    exec "target/$kind/debug/nomcheck" replay "$file"
    ;;
C[0-9][0-9])
    [ -n "${2:-}" ] && export VERIF_TIER=$2
    kind=alloc
    [ "$1" = C24 ] && kind=noalloc
    only=fuzz
    case $1 in
    C23 | C27) only=dev ;; # Executed under Miri only.
    esac
    build $kind $only
    if [ "$only" = dev ] || [ "$1" = C25 ]; then
        fresh miri-alloc
        fresh miri-noalloc
    fi
    "target/$kind/debug/nomcheck" check "$1" || exit $?
    [ "$only" = dev ] && exit 0
    # Some of it again, without debug assertions.
    NOMCHECK_PART=${NOMCHECK_PART2:-6} "target/$kind-plain/plain/nomcheck" check "$1" || exit $?
    [ "$only" = fuzz ] || exit 0
    [ "$fuzz_built" = 0 ] || exit 0
    # And steered by coverage.
    exec "target/$kind/debug/nomcheck" fuzz "$1" \
        "$here/harness/target/fuzz-$kind/x86_64-unknown-linux-gnu/debug/nomfuzz"
    ;;
*)
    sed -n '2,6p' "$0" >&2
    exit 2
    ;;
esac
