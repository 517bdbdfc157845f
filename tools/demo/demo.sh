#!/bin/bash
# Run from the root of the hyperbee tree. Builds main.rs against it in a scratch
# directory (offline; hypercore and replicator are the stand-ins beside this file)
# and runs it. Exit 0: as it should be. Exit 1: the property is broken.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
work=$(mktemp -d /tmp/hbdemo.XXXXXX) || exit 3
trap 'rm -r -- "${work:?}"' EXIT
cp -r "$here/stubs" "$work/stubs"
mkdir -p "$work/demo/src"
cp "$here/main.rs" "$here/prelude.rs" "$work/demo/src/"
cp "$here/lock" "$work/demo/Cargo.lock"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$work/demo/Cargo.toml"
export CARGO_TARGET_DIR=${HB_DEMO_TARGET:-$work/target} CARGO_INCREMENTAL=0
cd "$work/demo" || exit 3
cargo build --offline > "$work/build.log" 2>&1 || { tail -40 "$work/build.log"; echo "demo does not build"; exit 3; }
TMPDIR=$work timeout 120 "$CARGO_TARGET_DIR/debug/demo"
rc=$?
[ $rc = 0 ] && { echo "demo: held"; exit 0; }
echo "demo: BROKEN (exit $rc)"
exit 1
