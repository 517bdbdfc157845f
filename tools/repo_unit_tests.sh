#!/bin/bash
# Runs hyperbee's own unit tests (src/**, needs the offline stand-ins) in a scratch copy.
# Not a check: used to confirm that fix commits keep the existing suite passing.
set -e
. /opt/vp/env.sh
verif=$(cd "$(dirname "$0")/.." && pwd)
export CARGO_TARGET_DIR=$verif/target/unit
t=/tmp/hb_unit_tests; rm -rf /tmp/hb_unit_tests; mkdir -p $t/hb; trap 'rm -rf /tmp/hb_unit_tests' EXIT
src=${1:-/repo}
cp -a $src/src $src/build.rs $src/uniffi-bindgen.rs $src/tests $src/examples $t/hb/
cp -a "$verif/stubs" "$t/stubs"
sed 's#git = "https://github.com/cowlicks/replicator.git"#path = "../stubs/replicator"#' $src/Cargo.toml > $t/hb/Cargo.toml
cat >> $t/hb/Cargo.toml <<X
[patch.crates-io]
hypercore = { path = "../stubs/hypercore" }
derive_builder = { path = "../stubs/derive_builder" }
futures-lite = { path = "../stubs/futures-lite" }
async-recursion = { path = "../stubs/async-recursion" }
random-access-memory = { path = "../stubs/random-access-memory" }
[workspace]
X
cd $t/hb && cargo test --offline --lib --features debug,ffi 2>&1 | tail -${TAIL:-40}
