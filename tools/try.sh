#!/bin/bash
# try.sh ID [CHECK...]: runs checks against the planted bug seeded/ID, and takes it out again
id=$1; shift
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
git -C /repo apply /verif/seeded/$id/patch.diff || exit 1
for c in ${@:-$p}; do /verif/check $c; echo "$id: check $c exits $?"; done
