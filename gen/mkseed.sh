#!/bin/bash
# Development tool: mkseed.sh ID PROPERTY "needs" "what it breaks" — takes the uncommitted change of
# /tmp/sc/repo as the patch; main.rs of the demonstration is read from stdin.
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/sc/repo diff > $d/patch.diff; [ -s $d/patch.diff ] || { echo empty patch; exit 1; }
git -C /tmp/sc/repo checkout -q -- .
python3 - "$@" <<P
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("$d/meta.json","w"),indent=1)
P
cat > $d/main.rs
cp /verif/gen/seed-demo.sh $d/demo.sh
cp ${CRATE:-/verif/gen/seed-crate.toml} $d/crate.toml
cp ${LOCK:-/verif/harness/Cargo.lock} $d/crate.lock
