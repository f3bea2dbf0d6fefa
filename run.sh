#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough] [--replay FILE | --only SPACE]
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. harness/env.sh
export CARGO_TARGET_DIR="$VERIF_DIR/target"
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; [ $# -gt 0 ] && shift
case $id in
  C0?|C1[0-6]) ws=harness; bin=core-checks;;
  C1[7-9]|C2[0-2]) ws=harness-idx; bin=idx-checks;;
  C2[3-6]) ws=harness-ora; bin=ora-checks;;
  C2[78]) ws=harness-wal; bin=wal-checks;;
  C29|C3[01]) ws=harness-cli; bin=cli-checks;;
  C3[2-5]) ws=harness-cli2; bin=cli2-checks;;
  *) echo "unknown property $id"; exit 2;;
esac
mkdir -p evidence
log=$(mktemp /tmp/verif-build.XXXXXX)
if ! (cd $ws && cargo build --offline -q --workspace) >"$log" 2>&1; then
  tail -40 "$log"; rm -f "$log"; echo "BUILD-ERROR property=$id"; exit 2
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/debug/$bin" "$id" --tier "$tier" "$@"
