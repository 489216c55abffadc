#!/bin/bash
# check.sh <property>        simulate the property (VERIF_SEED, VERIF_TIER)
# check.sh --replay <file>   re-execute a recorded failing run
# check.sh --build           only build
# check.sh --tool <args>     run the simulator binary (release build)
#
# Builds /repo's working tree with its hooks on, into /verif/target.
# Exit: 0 held, 1 violated (or reproduced), anything else: error of the check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export KSIM_ROOT=$here
export CARGO_TARGET_DIR=$here/target
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
mkdir -p "$here/target"

build() { # profile -> sets bin
    local profile=$1 flag=() dir=debug log
    log=$here/target/build-$profile.log
    if [ "$profile" = release ]; then flag=(--release); dir=release; fi
    if cargo build --manifest-path "$here/sim/Cargo.toml" --offline --locked "${flag[@]}" \
            >"$log" 2>&1; then
        bin=$here/target/$dir/ksim
        return 0
    fi
    # The hooked build fails: does the tree build without hooks?  Then what is
    # simulated has no scheduling points inside reference-count operations.
    if CARGO_TARGET_DIR=$here/target/plain cargo build --manifest-path "$here/sim/Cargo.toml" \
            --offline --locked --no-default-features "${flag[@]}" >"$log.plain" 2>&1; then
        echo "note: built without hooks" >&2
        bin=$here/target/plain/$dir/ksim
        return 0
    fi
    tail -40 "$log" >&2
    echo "check.sh: build failed" >&2
    return 1
}

case "${1:-}" in
    --build)
        build release || exit 2
        build debug || exit 2
        exit 0;;
    --replay)
        profile=$(sed -n 's/^profile //p' "${2:?}" | head -1)
        case "$profile" in debug*) build debug || exit 2;; *) build release || exit 2;; esac
        exec "$bin" replay "$2";;
    --tool)
        shift
        build release || exit 2
        exec "$bin" "$@";;
    C13|C16)
        # Unoptimised, as an application under development has it: the stack
        # use of recursion is not hidden by the optimiser.
        build debug || exit 2
        exec "$bin" check "$1";;
    C*)
        build release || exit 2
        exec "$bin" check "$1";;
    *)
        echo "usage: check.sh <property> | --replay <file> | --build" >&2
        exit 2;;
esac
