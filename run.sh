#!/bin/bash
# Usage: run.sh ID [--replay FILE] | run.sh --build
# Builds the harness against /repo's working tree and decides one property.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0 REV=harness RUSTFLAGS="--cfg vp_hooks"
export CARGO_TARGET_DIR="$here/target" VERIF_DIR="$here"
cd "$here/harness" || exit 3

# A change of the sources is noticed by content, whatever the time stamps say.
now=$(find /repo/crates /repo/Cargo.toml "$here/harness/src" "$here/harness/Cargo.toml" -type f \
    \( -name '*.rs' -o -name '*.toml' -o -name '*.ungram' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
# Arguments: the target folder, the folder of the build in it.
refresh() {
    mkdir -p "$1"
    [ "$now" = "$(cat "$1/sources" 2>/dev/null)" ] && return
    for crate in pbt parser syntax paths vfs base_db ide_db ide ide_diagnostics stdx test_utils \
        project_model move_language_server generate_ast; do
        find "$2/.fingerprint" -maxdepth 1 -name "$crate-*" -exec rm -rf {} + 2>/dev/null
    done
    echo "$now" >"$1/sources"
}
refresh "$CARGO_TARGET_DIR" "$CARGO_TARGET_DIR/debug"

build() {
    cargo build --offline -q "$@" >"$CARGO_TARGET_DIR/build.log" 2>&1 || without_other_hooks "$@" || {
        cat "$CARGO_TARGET_DIR/build.log"
        echo "ERROR: the harness does not build"
        exit 3
    }
}

# A part of the hooks that does not fit the internals any more only concerns the checks that use it:
# the others get a stub of it.
without_other_hooks() {
    [ "$features" = server ] && [ "$CARGO_TARGET_DIR" = "$here/target" ] || return
    export CARGO_TARGET_DIR="$here/target/stubs"
    refresh "$CARGO_TARGET_DIR" "$CARGO_TARGET_DIR/debug"
    for part in text edits store pool server; do
        [ "$part" = "$hooks" ] || RUSTFLAGS="$RUSTFLAGS --cfg vp_hooks_stub=\"$part\""
    done
    cargo build --offline -q "$@" >"$CARGO_TARGET_DIR/build.log" 2>&1
}

generator() {
    cargo build --offline --locked -q --manifest-path /repo/Cargo.toml -p generate_ast >"$CARGO_TARGET_DIR/build.log" 2>&1 || {
        cat "$CARGO_TARGET_DIR/build.log"
        echo "ERROR: the code generator does not build"
        exit 3
    }
}

extension() {
    mkdir -p "$CARGO_TARGET_DIR/ext"
    node "$here/ext/build.js" /repo/editors/code/src "$CARGO_TARGET_DIR/ext/pbt.js" || {
        echo "ERROR: the checks of the extension do not build"
        exit 3
    }
}

case "$1" in
--build)
    build
    generator
    extension
    exit 0
    ;;
C3[2-7] | C42)
    extension
    exec node "$CARGO_TARGET_DIR/ext/pbt.js" "$@"
    ;;
C0[1-7] | C30 | C40 | C43) features=syn ;;
C08) features=lines ;;
C1[2-5]) features=files ;;
C17 | C18 | C19) features=db ;;
C25 | C26) features=project ;;
C27 | C28 | C31 | C38) features=aux ;;
C39)
    features=codegen
    generator
    ;;
*) features=server ;;
esac
# The part of the hooks of the server that the check uses.
case "$1" in
C11) hooks=text ;;
C23) hooks=store ;;
C24) hooks=edits ;;
C29) hooks=pool ;;
C22 | C41) hooks= ;;
*) hooks=server ;;
esac
if [ "$1" = C22 ] || [ "$1" = C41 ]; then
    build --no-default-features --features $features
else
    build --no-default-features --features $features --bin pbt
fi
export MLS="$CARGO_TARGET_DIR/debug/mls" GENERATE_AST="$CARGO_TARGET_DIR/debug/generate_ast"
# Checks whose cases run within one thread are also driven by the coverage they reach.
case "$1" in
C18 | C22 | C25 | C26 | C27 | C29 | C3[189] | C41) guided=0 ;;
*) guided=${VERIF_GUIDED:-300} ;;
esac
if [ "$VERIF_TIER" != thorough ] || [ $# != 1 ] || [ "$guided" = 0 ]; then
    exec "$CARGO_TARGET_DIR/debug/pbt" "$@"
fi
"$CARGO_TARGET_DIR/debug/pbt" "$1" || exit
host=x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="$CARGO_TARGET_DIR/guided"
refresh "$CARGO_TARGET_DIR" "$CARGO_TARGET_DIR/$host/debug"
# Not for build scripts and macros of the compiler, hence the explicit target.
export RUSTFLAGS="$RUSTFLAGS -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters"
build --no-default-features --features $features --bin pbt --target $host
exec "$CARGO_TARGET_DIR/$host/debug/pbt" "$1" --guided "$guided"
