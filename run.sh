#!/bin/bash
# run.sh build CRATE...      build harness crates against /repo's working tree
# run.sh check ID            build what the check needs and run it
# run.sh replay FILE         replay a saved case
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never NO_COLOR=1 CARGO_INCREMENTAL=0
export RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_BUILD_TARGET
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}

crate_of() {
    case $1 in
        C01|C07|C08|C13|C14) echo codec ;;
        C02|C03|C04|C05|C06|C09|C10|C11|C12|C15|C19) echo bus ;;
        C17|C18) echo schema ;;
        C16|C20) echo gen ;;
        *) return 1 ;;
    esac
}

build() {
    if [ "$1" = bus ]; then
        # The hooks are optional: without them the sizes of the broker's maps are not compared.
        CARGO_TARGET_DIR=$here/target/$1 cargo build --offline --locked -q --manifest-path "$here/harness/$1/Cargo.toml" 2>/dev/null && return
        CARGO_TARGET_DIR=$here/target/$1 cargo build --offline --locked -q --no-default-features --manifest-path "$here/harness/$1/Cargo.toml" || exit 2
        return
    fi
    CARGO_TARGET_DIR=$here/target/$1 cargo build --offline --locked -q --manifest-path "$here/harness/$1/Cargo.toml" || exit 2
    if [ "$1" = schema ]; then
        CARGO_TARGET_DIR=$here/target/$1 cargo build --offline --locked -q --manifest-path /repo/gen/Cargo.toml --bin aldrin-gen || exit 2
    fi
}

case $1 in
    build) shift; for c in "$@"; do build "$c"; done ;;
    check)
        c=$(crate_of "$2") || { echo "unknown property $2" >&2; exit 2; }
        build "$c"
        exec "$here/target/$c/debug/$c" check "$2" ;;
    replay)
        c=$(crate_of "$(sed -n 's/^property=//p' "$2" | head -1)") || exit 2
        build "$c"
        exec "$here/target/$c/debug/$c" replay "$2" ;;
    *) echo "usage: run.sh build CRATE... | check ID | replay FILE" >&2; exit 2 ;;
esac
