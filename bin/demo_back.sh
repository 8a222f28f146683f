#!/bin/bash
# builds demo.rs against the backend crates of the tree it is run in (cwd /repo), with the stand-ins beside it for crates whose sources are not here, and runs it
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
mkdir -p $W/src $W/.cargo; cp $D/demo.rs $W/src/main.rs; cp $D/lock $W/Cargo.lock; cp -r $D/stubs $W/stubs
cat > $W/Cargo.toml <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
cairo-m-common = { path = "$R/crates/common" }
cairo-m-compiler = { path = "$R/crates/compiler" }
cairo-m-runner = { path = "$R/crates/runner" }
cairo-m-compiler-mir = { path = "$R/crates/compiler/mir" }
stwo-prover = { git = "https://github.com/starkware-libs/stwo", rev = "ab57a1c" }
[patch.crates-io]
chumsky = { path = "stubs/chumsky" }
paste = { path = "stubs/paste" }
sonic-rs = { path = "stubs/sonic-rs" }
sonic-rs-03 = { path = "stubs/sonic-rs-03", package = "sonic-rs" }
[profile.dev]
debug = 0
X
cat > $W/.cargo/config.toml <<X
[source."git+https://github.com/starkware-libs/stwo?rev=ab57a1c"]
git = "https://github.com/starkware-libs/stwo"
rev = "ab57a1c"
replace-with = "stubs"
[source.stubs]
directory = "$W/stubs/vendor"
X
cd $W; export RUSTUP_TOOLCHAIN=nightly-2025-04-06 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$W/target CARGO_INCREMENTAL=0; unset RUSTFLAGS RUSTC_WRAPPER
cargo build -q 2>$W/err || { tail -20 $W/err; exit 3; }
timeout 60 $W/target/debug/demo
