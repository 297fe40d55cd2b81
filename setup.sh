#!/bin/bash
# Builds the harnesses once. Every check builds what it needs again if this is gone.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays harness/target
(cd harness && cargo build --release --offline) && cd prog && exec cargo build --release --offline
