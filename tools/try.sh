#!/bin/bash
# try.sh <patch> <property>...: run checks against a scratch copy of /repo/src with the patch applied (development aid)
set -u
d=$(mktemp -d /tmp/try.XXXXXX); mkdir -p $d/repo; cp -a /repo/src $d/repo/
p=$(readlink -f "$1"); shift
(cd $d/repo && git init -q . && git apply "$p") || { echo "patch does not apply"; exit 9; }
cd "$(dirname "$0")/.."
for c in "$@"; do VERIF_REPO=$d/repo timeout 900 python3 check.py $c 2>&1 | grep -v '^#' | cut -c1-400 | tail -3; echo "$c rc=${PIPESTATUS[0]}"; done
rm -rf "$d"
