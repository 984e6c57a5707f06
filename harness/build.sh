#!/bin/bash
# builds the harness against /repo's working tree; falls back to public items only
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR=${HARNESS_TARGET:-/verif/target/harness}
export SQL_PARSE_VERIF_HOOK=/verif/harness/hook.rs
cd "$(dirname "$0")" || exit 1
RUSTFLAGS="--cfg sql_parse_verif -Awarnings" cargo build --offline 2>&1 && exit 0
RUSTFLAGS="-Awarnings" cargo build --offline 2>&1
