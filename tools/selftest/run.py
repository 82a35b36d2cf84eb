"""interpret the snippets with the contracts of the analysis: each is true; False is a wrong contract, undecided a missing one"""
import os, sys, shutil, collections
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, '../../sa'))
import build, lib
from core import *
from interp import Interp, Program
from lib import contracts
from gencg import ParsePolicy
W = os.environ.get('VP_WORK', '/tmp/w/selftest'); build.WORK = W
os.makedirs(W, exist_ok=True)
os.system('cd %s && python3 gen.py' % H)
dd = W + '/dump'; shutil.rmtree(dd, ignore_errors=True); os.makedirs(dd)
rc, out = build.run_driver(H + '/Cargo.toml', ['vpselftest'], dd, W + '/target', clean=('vpselftest',), locked=False)
if rc: print(out[-2000:]); sys.exit(2)
P = Program(dd + '/vpselftest.json')
M = contracts(P, names=False)
src = [l[l.index('{') + 2:-2] for l in open(H + '/src/lib.rs').read().split('\n') if l.startswith('pub fn t')]
pol = ParsePolicy()
n = collections.Counter()
for i, s in enumerate(src):
    b = P.byname['vpselftest::t%d' % i]
    p = Path([], pol)
    try:
        r = Interp(P, p, M).call_body(b, [])
        v = 'ok' if r is True else 'WRONG %r' % (r,)
    except Panic as e: v = 'WRONG panic %s' % e
    except (Undecided, Infeasible, Stop) as e: v = 'missing: %s' % str(e)[:110]
    except Exception as e: v = 'missing: analyser %s %s' % (type(e).__name__, str(e)[:90])
    n[v.split()[0]] += 1
    if v != 'ok': print('%d %s   %s' % (i, v, s[:100]))
print(dict(n))
