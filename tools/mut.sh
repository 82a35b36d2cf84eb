#!/bin/bash
# usage: mut.sh PATCH PROP...   run checks on a scratch copy of /repo with PATCH applied
set -e
P=$(realpath "$1"); shift
N=${MUT:-0}
D=/tmp/mut$N; W=/tmp/mutw$N
mkdir -p $D $W
rsync -a --delete --exclude target --exclude .git ${SRC:-/repo}/ $D/
mkdir -p $W; [ -d $W/driver-target ] || cp -a /verif/work/driver-target /verif/work/driver.* /verif/work/target $W/ 2>/dev/null || true
cd $D; patch -p1 -s --no-backup-if-mismatch < "$P"
cd /verif
for p in "$@"; do VP_REPO=$D VP_WORK=$W VP_EVID=$W/evidence python3 sa/run.py $p | cut -c1-400 || true; done
