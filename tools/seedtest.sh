#!/bin/bash
# seedtest.sh ID...  confirm seeded bugs in a scratch copy of /repo: builds, stable tests pass, demo 0 without / nonzero with the patch
export HOME=/root RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_TEST_DEBUG=line-tables-only PYO3_PYTHON=/usr/bin/python3.12
W=/tmp/seedrepo
mkdir -p $W; rsync -a --delete --exclude target /repo/ $W/; [ -d $W/target ] || cp -a /repo/target $W/target
cd $W
cargo test --workspace --all-targets --no-run --locked --offline >/tmp/seed.log 2>&1 || { tail -5 /tmp/seed.log; exit 1; }
declare -A base
for s in "$@"; do d=/tmp/seeddemo/$s; mkdir -p $d; cp -a /verif/seeded/$s/. $d/; rm -f $d/*.diff $d/meta.json; bash $d/demo.sh >/tmp/seed.base.$s 2>&1; base[$s]=$?; done
for s in "$@"; do
 git checkout -q -- .; git apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
 if ! cargo test --workspace --all-targets --no-run --locked --offline >/tmp/seed.log 2>&1; then echo "$s: BUILD FAILED"; grep -A5 ^error /tmp/seed.log | head -20; continue; fi
 cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8 >/tmp/seed.log 2>&1; python3 /opt/vp/results.py /tmp/seed.json cargo:/tmp/seed.log >/dev/null 2>&1
 bad=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];r=json.load(open('/tmp/seed.json'))
ok=set(r.get('passed',[]) if isinstance(r,dict) else [])
print(' '.join(x for x in b if x not in ok)[:300])
P
)
 bash /tmp/seeddemo/$s/demo.sh >/tmp/seed.mut.$s 2>&1; m=$?
 echo "$s: base=${base[$s]} patched=$m failing-tests=[$bad]"
 [ ${base[$s]} = 0 ] || tail -5 /tmp/seed.base.$s
 [ $m != 0 ] || tail -5 /tmp/seed.mut.$s
done
git checkout -q -- .
