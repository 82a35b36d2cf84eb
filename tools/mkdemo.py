#!/usr/bin/env python3
"""mkdemo.py ID <<< 'PYTHON (extra files as `### name.py` blocks)\n====\nRUST statements'   write seeded/ID/demo.sh, which runs generated bindings"""
import sys, os, re
py, rs = sys.stdin.read().rstrip('\n').split('\n====\n')
T = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'rundemo.sh')).read()
parts = re.split(r'^### (.+)$', py, flags=re.M)
body = parts[0].strip('\n')
for n, t in zip(parts[1::2], parts[2::2]):
    body += '\nP\ncat > $D/vpdemo/%s <<\'P\'\n%s' % (n, t.strip('\n'))
p = '/verif/seeded/%s/demo.sh' % sys.argv[1]
open(p, 'w').write(T.replace('@PY@', body).replace('@RS@', rs))
os.chmod(p, 0o755)
