#!/bin/bash
# usage: tools/run.sh <property id> [quick|thorough] [more arguments of the check]
#        tools/run.sh build          (only build)
# Rebuilds the harness against /repo's working tree and runs one property's check.
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Exit 2: no verdict.
set -u
verif=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
export HB_VERIF=$verif
id=${1:?property id}; shift
tier=${VERIF_TIER:-quick}
case ${1:-} in quick|thorough) tier=$1; shift;; esac

build() { # crate directory, target directory
    export CARGO_TARGET_DIR=$2
    mkdir -p "$2"
    # cargo decides by modification times; a copied or restored tree can have old ones
    local sha stamp=$2/repo.sha256 log=$2/build.log d
    sha=$(cd /repo && find src build.rs uniffi-bindgen.rs Cargo.toml uniffi.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$(cat "$stamp" 2>/dev/null)" != "$sha" ]; then
        rm -f "$stamp"
        for d in "$2"/debug/.fingerprint/hyperbee-*; do
            [ -d "$d" ] && rm -r "$d"
        done
    fi
    # a lint is not a verdict
    export RUSTFLAGS=--cap-lints=allow
    local lock=$1/Cargo.lock ok=1
    (cd "$1" && cargo build --locked --offline) >"$log" 2>&1 || ok=0
    if [ $ok = 0 ] && grep -q 'lock file.*needs to be updated\|cannot update the lock file' "$log"; then
        # /repo's Cargo.toml has changed: resolve again, offline, and leave the committed lock as it was
        cp "$lock" "$2/committed.lock"
        (cd "$1" && cargo build --offline) >"$log" 2>&1 && ok=1
        cp "$2/committed.lock" "$lock"
    fi
    if [ $ok = 0 ]; then
        grep -E -A8 '^error' "$log" | head -60
        echo "ERROR: $1 does not build against /repo (see $log); no verdict"
        exit 2
    fi
    echo "$sha" > "$stamp"
}
build_rust() { build "$verif/harness" "$verif/target/h"; }
build_python() {
    local t=$verif/target/py
    build "$verif/pyffi" "$t"
    mkdir -p "$t/gen"
    ln -sfn "$t/debug/deps/libhyperbee.so" "$t/gen/libhyperbee.so"
    if ! (cd "$verif/pyffi" && "$t/debug/pyffi" generate --library "$t/gen/libhyperbee.so" --language python --no-format --out-dir "$t/gen") >>"$t/build.log" 2>&1; then
        tail -5 "$t/build.log"
        echo "ERROR: the Python bindings cannot be generated; no verdict"
        exit 2
    fi
}
case $id in
    build) build_rust; build_python; exit 0;;
    C15) build_python; exec python3-vt "$verif/pyffi/check.py" --tier "$tier" "$@";;
    *) build_rust; exec "$verif/target/h/debug/hbcheck" "$id" --tier "$tier" "$@";;
esac
