#!/bin/bash
# Run from the root of the hyperbee tree. Builds it with its Python scaffolding in a scratch
# directory (offline; hypercore and replicator are the stand-ins beside this file), generates
# the Python module and runs demo.py with it. Exit 0: as it should be. Exit 1: broken.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
work=$(mktemp -d /tmp/hbdemo.XXXXXX) || exit 3
trap 'rm -r -- "${work:?}"' EXIT
cp -r "$here/stubs" "$work/stubs"
mkdir -p "$work/demo/src" "$work/py"
cp "$here/main.rs" "$work/demo/src/"
cp "$here/lock" "$work/demo/Cargo.lock"
cp "$here/demo.py" "$work/py/"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$work/demo/Cargo.toml"
export CARGO_TARGET_DIR=${HB_DEMO_TARGET:-$work/target}; [ -n "${HB_DEMO_TARGET:-}" ] && CARGO_TARGET_DIR=$CARGO_TARGET_DIR-py
export CARGO_INCREMENTAL=0
cd "$work/demo" || exit 3
cargo build --offline > "$work/build.log" 2>&1 || { tail -40 "$work/build.log"; echo "demo does not build"; exit 3; }
cp "$CARGO_TARGET_DIR/debug/deps/libhyperbee.so" "$work/py/"
"$CARGO_TARGET_DIR/debug/demo" generate --library "$work/py/libhyperbee.so" --language python --no-format --out-dir "$work/py" > "$work/build.log" 2>&1 || { tail -40 "$work/build.log"; echo "no bindings"; exit 3; }
cd "$work/py" || exit 3
TMPDIR=$work timeout 120 python3 demo.py
rc=$?
[ $rc = 0 ] && { echo "demo: held"; exit 0; }
echo "demo: BROKEN (exit $rc)"
exit 1
