#!/bin/bash
# Builds all check binaries from the committed files, offline.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. harness/env.sh
export CARGO_TARGET_DIR="$VERIF_DIR/target"
for ws in harness harness-idx harness-ora harness-wal harness-cli harness-cli2; do
  (cd $ws && cargo build --offline -q --workspace) || exit 1
done
