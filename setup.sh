#!/bin/bash
# builds the extractor and the harness from the committed files (the checks rebuild what is missing or stale)
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true
(cd vx && cargo build --offline -q) || exit 1
bash harness/build.sh || exit 1
