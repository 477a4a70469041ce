#!/bin/bash
# tools/try.sh PATCH PROPS... : run checks against a scratch worktree with PATCH applied (development aid)
W=/tmp/tryrepo
if [ ! -d $W ]; then git clone -q /repo $W; fi
git -C $W fetch -q origin && git -C $W checkout -q -f origin/HEAD && git -C $W clean -fdq
git -C $W apply "$(realpath $1)" || exit 9
shift
cd /verif
for p in "$@"; do VP_REPO=$W timeout 900 python3 sa/run.py --property $p 2>&1 | cut -c1-${CUT:-400} | tail -${TAIL:-8}; done
