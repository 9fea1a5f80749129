#!/bin/bash
# plant.sh ID: checks the planted bug seeded/ID (patch.diff, main.rs, meta.json) in a scratch copy of /repo
here=$(cd "$(dirname "$0")" && pwd)
s=/verif/seeded/$1
[ -f $s/demo.sh ] || { cp $here/demo/demo.sh $here/demo/Cargo.lock $s/; cp -r $here/demo/terminfo $s/; cp /verif/refuter/src/dev.rs /verif/refuter/src/vt.rs $here/demo/common.rs $s/; }
w=$(mktemp -d /tmp/plant.XXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo $w/repo; cd $w/repo
bash $s/demo.sh > $w/o 2>&1; a=$?; tail -3 $w/o
git apply $s/patch.diff || { echo "$1: patch does not apply"; exit 1; }
export CARGO_NET_OFFLINE=true
cargo test --workspace --offline --no-fail-fast > $w/t 2>&1; t=$?
grep -E "^test result|FAILED|panicked" $w/t
bash $s/demo.sh > $w/o 2>&1; b=$?; tail -3 $w/o
echo "$1: unchanged $a (want 0), tests $t (want 0), patched $b (want nonzero)"
[ $a = 0 ] && [ $t = 0 ] && [ $b != 0 ] && [ $b != 3 ]
