# sourced by every script here
export RUSTUP_TOOLCHAIN=nightly-2025-04-06 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=/verif/.build/h CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
