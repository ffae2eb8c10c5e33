#!/bin/bash
# Builds the extractor and the harness from the committed files (offline).
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true
(cd extract && cargo build --offline --locked -q) && (cd harness && cargo build --offline --locked -q) && verus --version >/dev/null
