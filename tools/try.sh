#!/bin/bash
# try.sh FILE 'python replace expr: old|||new' CHECK... : runs checks against a scratch copy with one replacement
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/try.XXXXXX)
git -C "${VERIF_REPO:-/repo}" worktree add -q --detach "$W/r" HEAD
F="$W/r/$1" R="$2" python3 - <<'P'
import os
f=os.environ["F"]; s=open(f).read(); o,n=os.environ["R"].split("|||")
assert s.count(o)>=1, "pattern not found"
open(f,"w").write(s.replace(o,n,1))
P
shift 2
for c in "$@"; do VERIF_REPO="$W/r" python3 "$HERE/check.py" $c quick 2>&1 | grep -v TLC | cut -c1-300 | tail -4; done
git -C "${VERIF_REPO:-/repo}" worktree remove --force "$W/r"
rmdir "$W"
