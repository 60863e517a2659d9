#!/bin/bash
# usage: check.sh ID [quick|thorough] - builds what the check of property ID needs from the working tree of /repo and
# runs it. Exit status 0: held on everything explored; 1: violated (a VIOLATION line says where the
# replay is); anything else: the check could not be carried out.
# check.sh replay FILE repeats one reported execution.
set -u
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_DIR=$PWD
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=$VERIF_DIR/target
unset RUSTFLAGS CARGO_BUILD_TARGET
bin_of() {
    case $1 in
        C01|C02|C03|C04|C05|C21) echo lang;;
        C06|C07|C08|C09|C10|C11|C12|C13) echo draw;;
        C14|C15|C16|C19) echo mir;;
        C17|C25|C29) echo cli;;
        C18|C22) echo prim;;
        C20) echo hash;;
        C23|C24) echo dbg;;
        C26|C27|C28|C30) echo more;;
    esac
}
case ${1:-} in
    replay) id=$(sed -n 's/^property //p' "${2:?}"); file=$(readlink -f "$2");;
    *) id=${1:-};;
esac
[ "${2:-}" = thorough ] && export VERIF_TIER=thorough
[ "${2:-}" = quick ] && export VERIF_TIER=quick
bin=$(bin_of "$id")
[ -n "$bin" ] || { echo "usage: check.sh ID | check.sh replay FILE" >&2; exit 2; }

mkdir -p target evidence replays
build() {
    # Cargo goes by modification times, which a restored copy of the tree may not show correctly.
    local sum stamp=target/seiren.sum
    sum=$(cd /repo && find Cargo.toml Cargo.lock src -type f -exec sha256sum {} + 2>/dev/null | LC_ALL=C sort | sha256sum)
    if [ "$(cat $stamp 2>/dev/null)" != "$sum" ]; then
        rm -f "$stamp"
        [ -d target/release ] && cargo clean --release --offline --manifest-path mc/Cargo.toml -p seiren -p seiren-mc >/dev/null 2>&1
    fi
    cargo build --release --offline --quiet --manifest-path mc/Cargo.toml --bin "$bin" || return 1
    if [ "$bin" = cli ]; then
        cargo build --release --offline --quiet --manifest-path /repo/Cargo.toml --bin seiren \
            --config profile.release.opt-level=2 --config profile.release.debug-assertions=true \
            --config profile.release.overflow-checks=true --config profile.release.codegen-units=16 || return 1
    fi
    echo "$sum" > "$stamp"
    # a copy of its own, so that the check is not disturbed by a build for another one
    run=$(mktemp -d "$VERIF_DIR/target/run-XXXXXX") || return 1
    cp target/release/"$bin" "$run/" || return 1
    if [ "$bin" = cli ]; then
        cp target/release/seiren "$run/seiren" || return 1
    fi
}
exec 9>target/build.lock
flock 9
run=
build >&2 || { echo "check.sh: the build failed" >&2; exit 2; }
flock -u 9
trap 'rm -rf "$run"' EXIT
ulimit -v $((20 * 1024 * 1024)) 2>/dev/null
ulimit -c 0
if [ "$1" = replay ]; then
    "$run/$bin" replay "$file" 9>&-
else
    "$run/$bin" check "$id" 9>&-
fi
st=$?
exit $st
