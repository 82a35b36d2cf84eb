"""Exploration, judgement, reporting shared by the checks."""
import json, multiprocessing, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from core import *
import interp
from interp import *
import models
import env

HERE = build.HERE
_dump = None


def dump():
    global _dump
    if _dump is None:
        _dump = build.dump()
    return _dump


_progs = {}


def program(crate='pyo3_bindgen_engine'):
    if crate not in _progs:
        _progs[crate] = Program(os.path.join(dump(), crate + '.json'))
    return _progs[crate]


_contracts = {}


def contracts(prog, names=True):
    k = (prog.crate, names)
    if k not in _contracts:
        _contracts[k] = env.install(prog, names)
    return _contracts[k]


class Missing(Exception):
    """an anchor of the analysis is absent from the program"""


def fn(prog, *tails):
    """the function whose path ends in one of `tails` (first match)"""
    for t in tails:
        r = [b for n, b in prog.byname.items() if n.endswith(t) and b['kind'] == 'fn']
        if len(r) >= 1:
            return sorted(r, key=lambda b: len(b['name']))[0]
    raise Missing(tails[0])


class Report:
    """what one check found and covered"""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.viol = {}           # key -> text
        self.cov = {}
        self.samples = []
        self.notes = []
        self.undecided = {}
        self.t0 = time.time()
        self.functions = set()
        self.out = []            # values handed over by judges (picklable)

    def violation(self, key, text=''):
        self.viol.setdefault(key, text)

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def merge(self, d):
        for k, t in d['viol']:
            self.violation(k, t)
        for k, n in d['cov'].items():
            self.count(k, n)
        for s in d['samples']:
            self.sample(s)
        for k, n in d['und'].items():
            self.undecided[k] = self.undecided.get(k, 0) + n
        self.functions |= d['fns']
        self.out += d.get('out', [])


class Local:
    def __init__(self):
        self.d = {'viol': [], 'cov': {}, 'samples': [], 'und': {}, 'fns': set(), 'left': []}

    def violation(self, key, text=''):
        self.d['viol'].append((key, text))

    def count(self, k, n=1):
        self.d['cov'][k] = self.d['cov'].get(k, 0) + n

    def sample(self, s):
        if len(self.d['samples']) < 4:
            self.d['samples'].append(s)


_job = None


def _work(arg):
    prefixes, cap = arg
    run, policy, judge, name = _job
    L = Local()
    n = 0
    stack = [list(p) for p in prefixes]
    t_end = time.time() + 8
    while stack:
        if n >= cap or time.time() > t_end:
            L.d['left'] = stack
            break
        n += 1
        _one(stack, run, policy, judge, L, name)
    return L.d


def _one(stack, run, policy, judge, L, name):
    pre = stack.pop()
    p = Path(pre, policy)
    try:
        out = ('ret', run(p))
    except Panic as e:
        out = ('panic', e)
    except Infeasible as e:
        out = ('infeasible', e)
    except Undecided as e:
        out = ('undecided', e)
    except Stop as e:
        out = ('stop', e)
    except RecursionError as e:
        out = ('undecided', Undecided('recursion'))
    except Exception as e:      # a construct the contracts do not cover
        tb = traceback.extract_tb(e.__traceback__)[-1]
        out = ('undecided', Undecided('analyser: %s: %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)))
    tr = [t[0] for t in p.trace]
    for i in range(len(p.trace) - 1, len(pre) - 1, -1):
        for alt in range(1, p.trace[i][1]):
            stack.append(tr[:i] + [alt])
    if out[0] == 'infeasible':
        L.count('infeasible paths')
        return
    L.count('paths')
    L.count('MIR steps', p.steps)
    for e in p.events:
        L.d['fns'].update(e.stack[-1:])
    if out[0] == 'undecided':
        k = name + ': ' + str(out[1])[:160]
        L.d['und'][k] = L.d['und'].get(k, 0) + 1
        L.count('undecided paths')
    try:
        judge(L, p, out)
    except Exception as e:      # a result of an unforeseen form
        tb = traceback.extract_tb(e.__traceback__)[-1]
        k = name + ': ' + 'judge: %s: %s (%s:%d)' % (type(e).__name__, str(e)[:80], os.path.basename(tb.filename), tb.lineno)
        L.d['und'][k] = L.d['und'].get(k, 0) + 1
        L.count('undecided judgements')


def explore_all(rep, name, run, policy, judge, max_paths=400000, budget_s=400, procs=8, serial=False):
    """partition all paths of run() and judge each; in parallel"""
    global _job
    _job = (run, policy, judge, name)
    L = Local()
    stack = [[]]
    n = 0
    t0 = time.time()
    while stack and (n < 60 or serial and n < 20000):
        _one(stack, run, policy, judge, L, name)
        n += 1
    rep.merge(L.d)
    total = n
    complete = True
    if stack:
        with multiprocessing.get_context('fork').Pool(procs) as pool:
            pend = []
            todo = sorted(stack, key=len)
            while todo or pend:
                while todo and len(pend) < procs * 2:
                    k = max(1, len(todo) // (procs * 4))
                    chunk, todo = todo[:k], todo[k:]
                    pend.append(pool.apply_async(_work, ((chunk, 600),)))
                done = [r for r in pend if r.ready()]
                if not done:
                    time.sleep(0.01)
                    pend[0].wait(0.2)
                    if time.time() - t0 > budget_s + 30:
                        complete = False
                        break
                    continue
                for r in done:
                    pend.remove(r)
                    d = r.get()
                    rep.merge(d)
                    total += d['cov'].get('paths', 0) + d['cov'].get('infeasible paths', 0)
                    todo += d['left']
                todo.sort(key=len)
                if total > max_paths or time.time() - t0 > budget_s:
                    complete = False
                    break
            pool.terminate()
    rep.count('analyses')
    if not complete:
        rep.notes.append('%s: stopped after %d paths (budget)' % (name, total))
        rep.count('analyses cut off by budget')
    return complete


def known(path, t):
    return path.known(t)


# ------------------------------------------------------------------ results
def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def finish(rep, level, rule, assumptions, explanation, extra=None):
    """write evidence, print verdict, return exit code"""
    if rep.undecided or rep.cov.get('analyses cut off by budget'):
        # paths the contracts cannot follow: an obligation that was not reached is then unknown, not violated
        for k in [k for k in rep.viol if k.startswith('coverage: ')]:
            rep.notes.append('not decided, %s' % k)
            print('UNDECIDED: %s' % k)
            del rep.viol[k]
    kf = {f['key']: f for f in known_findings()['findings'] if f['property'] == rep.prop}
    EV = os.environ.get('VP_EVID', os.path.join(HERE, 'evidence'))
    os.makedirs(EV, exist_ok=True)
    new = {k: t for k, t in rep.viol.items() if k not in kf}
    for k in sorted(rep.viol):
        if k in kf:
            print('KNOWN-FINDING: property=%s %s' % (rep.prop, kf[k].get('what', k)))
    cov = {'explanation': explanation, 'rule': rule, 'evaluations': rep.cov.get('obligations', rep.cov.get('paths', 0)),
           'functions_analysed': len(rep.functions), 'functions': sorted(rep.functions)[:80]}
    cov.update({k: v for k, v in rep.cov.items()})
    cov['samples'] = rep.samples
    if rep.undecided:
        cov['undecided'] = dict(sorted(rep.undecided.items(), key=lambda x: -x[1])[:20])
    if rep.notes:
        cov['notes'] = rep.notes
    cov.update(extra or {})
    ev = {'property': rep.prop, 'tier': rep.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': level,
          'coverage': cov, 'assumptions': assumptions, 'wall_s': round(time.time() - rep.t0, 2), 'violations': len(new)}
    if new:
        ev['violation_list'] = [{'key': k, 'what': t} for k, t in sorted(new.items())]
    epath = os.path.join(EV, rep.prop + '.json')
    json.dump(ev, open(epath, 'w'), indent=1, default=str)
    for k, t in sorted(new.items()):
        print('  %s: %s' % (k, t))
    if new:
        rp = os.path.join(EV, rep.prop + '.violations.json')
        json.dump(ev['violation_list'], open(rp, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (rep.prop, rp))
        return 1
    print('%s: held (%s)' % (rep.prop, ', '.join('%s=%s' % (k, v) for k, v in rep.cov.items())))
    return 0
