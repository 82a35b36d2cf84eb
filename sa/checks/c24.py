"""C24 an exception raised by Python in a binding reaches the caller as it is, and nothing is done after it"""
from tree import *
from calls import *
from checks.c12 import Types
import checks.c09 as c09, checks.c10 as c10, checks.c11 as c11

EFFECTS = ('pycall', 'setattr', 'setitem', 'from_code', 'import', 'dictupdate', 'delitem', 'delattr')


def judge_err(L, path, e, bad, where):
    L.count('failing paths')
    if len(bad) > 1:
        L.violation('a generated binding goes on after a failure', '%s: fails in %s and then in %s' % (where, bad[0].kind, bad[1].kind))
        return
    x = bad[0]
    after = [y for y in path.events[[i for i, z in enumerate(path.events) if z is x][0] + 1:] if y.kind in EFFECTS]
    if after:
        L.violation('a generated binding goes on after a failure', '%s: %s %s after the failing %s' % (where, after[0].kind, after[0].args, x.kind))
    if not (isinstance(e, Sym) and e.op == 'pyerr'):
        L.violation('a generated binding replaces the error', '%s: the failing %s gives %s' % (where, x.kind, str(e)[:200]))
    elif x.err is not None and e is not x.err:
        L.violation('a generated binding returns another error', '%s: the failing %s gives %s' % (where, x.kind, str(e)[:200]))


def judge_ok(L, path, out, exp, where, fname, argtys, imps):
    L.count('successful paths')


def embedding(rep, P, M):
    """the function that registers embedded source code"""
    mg = fn(P, 'module::Module::generate')
    W = Witness('c24e')
    outs = []

    def r(path):
        return Interp(P, path, M).call_body(mg, [Ref([module(P, mk_path(P, ['a', 'b']), source='x = 1')]), Ref([cfg_with(P)]), Slice([]), Slice([])])

    def j(L, path, o):
        if is_ok(o):
            outs.append(o[1].f[0])
        elif o[0] == 'panic':
            L.violation('Module::generate panics', o[1])
    explore_all(rep, 'Module::generate with source code', r, gen_policy(P, False), j, serial=True)
    for ts in outs:
        W.add(W.src(ts.t), None)
    for i, msgs in W.compile().items():
        rep.violation('the generated module does not compile', '%s' % (msgs[:2],))
    Q = W.prog
    M2 = contracts(Q)
    for b in [b for b in Q.bodies.values() if b['kind'] == 'fn' and b['name'].rsplit('::', 1)[-1] == 'pyo3_embed_python_source_code']:
        def go(path, b=b):
            return Interp(Q, path, M2).call_body(b, [models.PY])

        class Pol(CallPolicy):
            def outcomes(self, path, ev):
                return ('ok', 'err') if ev.kind in ('from_code',) + EFFECTS else CallPolicy.outcomes(self, path, ev)

        def je(L, path, o):
            if o[0] in ('undecided', 'stop'):
                return
            L.count('obligations')
            bad = [e for e in path.events if e.res == 'err']
            if o[0] == 'panic':
                L.violation('a generated binding panics', 'embedding function: %s' % (o[1],))
            elif is_ok(o) and bad:
                L.violation('a generated binding hides a failure', 'embedding function: %s' % bad[0].kind)
            elif is_err(o) and not bad:
                L.violation('a generated binding fails without a failing operation', 'embedding function: %s' % (o[1],))
            elif is_err(o):
                judge_err(L, path, o[1].f[0], bad, 'embedding function')
                L.d['cov']['embedding fails'] = 1
        explore_all(rep, 'embedding function', go, Pol(), je)
    if not rep.cov.pop('embedding fails', 0):
        rep.violation('coverage: the embedding function', '')


def run(rep):
    P = program()
    M = contracts(P)
    T = Types(P)
    thorough = rep.tier != 'quick'
    shs = list(c09.shapes())
    jobs = []
    if thorough:
        jobs += list(c09.callable_jobs(P, T, c09.FKS, shs, 'PyLong'))
    full = [['PositionalOnly', 'PositionalOrKeyword', 'VarPositional', 'KeywordOnly', 'VarKeyword'], ['PositionalOrKeyword', 'KeywordOnly'], ['VarPositional'], ['VarKeyword'], ['KeywordOnly'], []]
    for d in ('Unknown', 'PyLong', 'PyString', ('Optional', 'PyLong'), ('PyList', 'PyLong'), ('PyDict', 'PyString', 'PyLong'), ('PyTuple', 'PyLong', 'PyString'), 'PyNone', ('Optional', ('PyDict', 'PyString', 'PyAny'))):
        jobs += list(c09.callable_jobs(P, T, c09.FKS if d in ('Unknown', 'PyLong') or thorough else ('Function', 'InstanceMethod'), full, d))
    jobs += c10.jobs_of(P, T, thorough)
    jobs += c11.jobs_of(P, T, thorough)
    outs = emit(rep, P, M, 'c24', jobs, policy=gen_policy(P, False, kinds=(), base=c10.ImportPolicy))
    W = lower(rep, 'c24', outs, jobs)
    interpret_all(rep, W, jobs, judge_ok, 'generated callables and accessors', judge_err=judge_err)
    embedding(rep, P, M)
    if not rep.cov.get('failing paths'):
        rep.violation('coverage: no failing path', '')
    return dict(level='other',
                rule='The bindings that Module::generate emits for every kind of callable, accessor and the embedding function are compiled to MIR and interpreted with every Python operation (import, attribute access, call, keyword and item assignment, conversion of the result) failing in turn: a path on which an operation fails ends in Err with the very error of that operation, without a panic and without another call, assignment or import after it; a path on which none fails ends in Ok.',
                assumptions=['contracts in sa/models.py and sa/wmodels.py', 'collections passed by the caller have 0 to 2 elements', 'conversions of arguments into Python objects do not fail (pyo3 0.21)'],
                explanation='Abstract interpretation of the MIR of the generator and of the MIR of what it generates (through a compile witness); arguments and the outcomes of Python operations are symbolic.')
