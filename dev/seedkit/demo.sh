#!/bin/bash
# run in the repository: builds the contract of this tree with the demonstration as its only test module
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export RUST_BACKTRACE=0 HOME=/root RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never DOCS_RS=1
export CARGO_TARGET_DIR="$repo/target"
S=/tmp/ob_demo_scratch
rm -rf /tmp/ob_demo_scratch
mkdir -p "$S"
cp -a "$repo/Cargo.toml" "$repo/Cargo.lock" "$repo/contracts" "$S/"
T="$S/contracts/sumtree-orderbook/src/tests"
mv "$T" "$S/tests.orig"
mkdir "$T"
printf '#[allow(unused_imports)]\nmod kit;\nmod demo;\n' > "$T/mod.rs"
cp "$here/kit.rs" "$here/demo.rs" "$T/"
cd "$S"
cargo test -p sumtree-orderbook --lib --offline --locked -- tests::demo --test-threads 4
rc=$?
cd /
rm -rf /tmp/ob_demo_scratch
exit $rc
