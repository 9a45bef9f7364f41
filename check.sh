#!/bin/bash
# check.sh <property> quick|thorough   build the checker against /repo and run one check
# check.sh setup                       build only
# check.sh <property> replay <file>    run one recorded case again
set -u
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}"
export CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export MC_ROOT="$PWD"
target="${MC_TARGET:-$PWD/target}"

build() {
    local log
    if ! log=$(cargo build --quiet --offline --manifest-path mc/Cargo.toml \
        --target-dir "$target" --profile "$1" 2>&1); then
        echo "$log" >&2
        echo "check.sh: building the checker failed" >&2
        exit 2
    fi
}

build release
if [ "${2:-}" = replay ]; then
    exec "$target/release/mc" replay "$3"
fi
case "$1" in
setup)
    build shipping
    ;;
# These are also decided for the library as users compile it.
C05 | C06)
    build shipping
    exec "$target/release/mc" run "$1" "$2" "$target/shipping/mc"
    ;;
*)
    exec "$target/release/mc" run "$1" "$2"
    ;;
esac
