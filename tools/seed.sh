#!/bin/bash
# tools/seed.sh ID : validate /verif/seeded/ID in a scratch copy of /repo (builds, stable tests, demo) 
# usage: seed.sh ID [--notest]
set -u
ID=$1
S=/verif/seeded/$ID
W=/tmp/seedrepo
if [ ! -d $W ]; then cp -a /repo $W; fi
git -C $W checkout -q -- . ; git -C $W clean -fdq -e target; git -C $W fetch -q /repo HEAD && git -C $W checkout -q FETCH_HEAD
cd $W
bash "$S/demo.sh" >/tmp/seed_demo0.log 2>&1; r0=$?
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
bash "$S/demo.sh" >/tmp/seed_demo1.log 2>&1; r1=$?
if [ "${2:-}" != "--notest" ]; then
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never INSTA_UPDATE=no
cargo nextest run --workspace --tool-config-file vp:/opt/vp/nextest.toml --profile vp --user-config-file none --no-fail-fast --test-threads 8 --offline --locked >/tmp/seed_test.log 2>&1; rt=$?
else rt=skip; fi
echo "$ID: demo clean=$r0 patched=$r1 tests rc=$rt $(grep -E 'Summary' /tmp/seed_test.log | tail -1)"
git -C $W checkout -q -- .
