#!/usr/bin/env python3
"""mkseed.py ID PROP FILE <<< 'OLD\n====\nNEW\n====\nNEEDS\n====\nBREAKS'   write seeded/ID/{patch.diff,meta.json} (FILE may repeat as `@@@ FILE` blocks)"""
import sys, os, subprocess, json, shutil
sid, prop, file = sys.argv[1:4]
blocks = sys.stdin.read().split('\n====\n')
*edits, needs, breaks = blocks
W = '/tmp/seedwt'
shutil.rmtree(W, ignore_errors=True)
subprocess.check_call(['git', 'clone', '-q', '/repo', W])
f = file
while edits:
    old, new = edits[0], edits[1]
    edits = edits[2:]
    if old.startswith('@@@ '):
        f, old = old[4:].split('\n', 1)
    p = os.path.join(W, f)
    t = open(p).read()
    old = old.strip('\n')
    new = new.strip('\n')
    assert t.count(old) == 1, (t.count(old), old)
    open(p, 'w').write(t.replace(old, new))
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', W, 'diff'], text=True))
json.dump({'property': prop, 'needs': needs.strip(), 'what_it_breaks': breaks.strip()}, open(d + '/meta.json', 'w'), indent=1)
# changed original lines must not be ours
hunk = subprocess.check_output(['git', '-C', W, 'diff', '-U0'], text=True)
import re
cur = None
own = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
for l in hunk.splitlines():
    if l.startswith('--- a/'):
        cur = l[6:]
    m = re.match(r'@@ -(\d+)(?:,(\d+))?', l)
    if m:
        a, n = int(m[1]), int(m[2] or 1)
        if n:
            bl = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', '-l', '-L%d,+%d' % (a, n), cur], text=True)
            for b in bl.splitlines():
                if not b.lstrip('^').startswith(own[:30]):
                    print('NOT ORIGINAL:', b[:150])
print(open(d + '/patch.diff').read())
