#!/bin/bash
# try_seed.sh ID: does seeded/ID build, pass the stable tests, and does its demo tell the trees apart?
# Runs in a scratch copy of /repo. With a second argument "quick" the tests are left out.
set -u
export DEMO_TARGET=/tmp/seedtry-target
id=$1
dir=/verif/seeded/$id
w=/tmp/seedtry
rm -rf /tmp/seedtry
mkdir -p $w
cp -a /repo $w/repo
cd $w/repo || exit 2
git checkout -q -- . 
bash "$dir/demo.sh" >$w/out0 2>&1; a=$?
git apply "$dir/patch.diff" || { echo "$id: does not apply"; exit 1; }
bash "$dir/demo.sh" >$w/out1 2>&1; b=$?
echo "$id: unchanged $a ($(tail -1 $w/out0)), patched $b ($(tail -1 $w/out1))"
if [ "${2:-}" != quick ]; then
    cargo test --workspace --no-run --offline -q 2>&1 | grep -E '^error' | head
    cargo test --workspace --offline -q --lib 2>&1 | grep -E 'test result: F|FAILED|panicked' | head
fi
