#!/bin/bash
# Regenerates <crate>/Cargo.lock offline. The git dependency of hyperbee cannot be
# resolved without a lock that already names its patched stand-in, so resolve once
# against a throwaway copy whose manifest points at the stand-in by path.
# usage: make_lock.sh /verif/harness
set -e
. /opt/vp/env.sh; unset CARGO_TARGET_DIR
crate=$(readlink -f "$1"); verif=$(cd "$(dirname "$0")/.." && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir "$t/hb"; cp -a /repo/src /repo/build.rs /repo/uniffi-bindgen.rs "$t/hb/"
cp -a "$verif/stubs" "$t/stubs"
sed 's#git = "https://github.com/cowlicks/replicator.git"#path = "'"$t"'/stubs/replicator"#' /repo/Cargo.toml > "$t/hb/Cargo.toml"
mkdir "$t/c"; cp -a "$crate/src" "$t/c/"
sed -e 's#path = "/repo"#path = "'"$t"'/hb"#' \
    -e 's#git = "https://github.com/cowlicks/replicator.git"#path = "'"$t"'/stubs/replicator"#' \
    -e '/^\[patch\."https/,/^$/d' "$crate/Cargo.toml" > "$t/c/Cargo.toml"
(cd "$t/c" && cargo generate-lockfile --offline)
cp "$t/c/Cargo.lock" "$crate/Cargo.lock"
(cd "$crate" && cargo tree --offline >/dev/null && echo lock ok)
