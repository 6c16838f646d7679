#!/bin/bash
# run.sh <ID> [replay FILE]   decide property <ID> against /repo's working tree
# run.sh build                build everything (setup)
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
REPO=/repo
export VERIF_ROOT="$ROOT"
export CARGO_NET_OFFLINE=true
unset VERIF_FUZZ RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET

build_public() {
    CARGO_TARGET_DIR="$ROOT/target" cargo build -q --release --offline --locked \
        --manifest-path "$ROOT/harness/Cargo.toml" --bin public
}
build_frames() {
    CARGO_TARGET_DIR="$ROOT/target" cargo build -q --release --offline --locked \
        --manifest-path "$ROOT/harness/Cargo.toml" --bin c24
}
build_cli() {
    CARGO_TARGET_DIR="$ROOT/target-cli" cargo build -q --release --offline --locked \
        --manifest-path "$REPO/Cargo.toml" --bin adhoc_audio
}
build_internal() {
    RUSTFLAGS="--cfg adhoc_verif" CARGO_TARGET_DIR="$ROOT/target-int" cargo build -q --release \
        --offline --locked --manifest-path "$ROOT/harness/Cargo.toml" --features internal "$@"
}
# The same checks as targets of a coverage-guided fuzzer (needs nightly for the instrumentation).
build_fuzz() {
    CARGO_TARGET_DIR="$ROOT/target-fuzz" cargo +nightly build -q --release --offline --locked \
        -Zprofile-rustflags --manifest-path "$ROOT/fuzz/Cargo.toml"
}
with_fuzz() { # the stage is skipped, and the evidence says so, where it cannot be built
    local out
    if out="$(build_fuzz 2>&1)"; then
        export VERIF_FUZZ="$ROOT/target-fuzz/release/adhoc-fuzz"
        local seconds=12
        [ "${VERIF_TIER:-quick}" = thorough ] && seconds=900
        export VERIF_FUZZ_SECONDS="${VERIF_FUZZ_SECONDS:-$seconds}"
    else
        printf '%s\n' "$out" | tail -5 >&2
        echo "coverage-guided stage skipped: its build failed" >&2
    fi
}
attempt() { # build errors are an error of the check, never a verdict
    local out
    out="$("$@" 2>&1)" || { printf '%s\n' "$out" >&2; echo "build failed: $*" >&2; exit 2; }
}

id="${1:-}"
case "$id" in
build)
    attempt build_public
    attempt build_frames
    attempt build_cli
    attempt build_internal --bin c20 --bin c21 --bin c22
    with_fuzz && [ -n "${VERIF_FUZZ:-}" ] || echo "the coverage-guided stage cannot be built" >&2
    exit 0
    ;;
C0[1-9] | C1[0-8] | C23)
    attempt build_public
    bin="$ROOT/target/release/public"
    ;;
C19)
    attempt build_public
    attempt build_cli
    export VERIF_CLI="$ROOT/target-cli/release/adhoc_audio"
    bin="$ROOT/target/release/public"
    ;;
C24)
    attempt build_frames
    bin="$ROOT/target/release/c24"
    ;;
C20 | C21 | C22)
    name="$(echo "$id" | tr C c)"
    attempt build_internal --bin "$name"
    bin="$ROOT/target-int/release/$name"
    ;;
*)
    echo "usage: run.sh <C01..C24> [replay FILE] | build" >&2
    exit 3
    ;;
esac
case "$id" in
C19 | C23) ;; # external processes and timing: nothing to guide
*) [ $# -eq 1 ] && with_fuzz ;;
esac
exec "$bin" "$@"
