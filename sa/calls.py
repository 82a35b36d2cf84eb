"""What the generated code does: the MIR of generated callables and accessors, interpreted over symbolic arguments, reduced to
(callee, positional values, keyword values, result)."""
import models, wmodels
from gencg import *
from witness import Witness


class CallPolicy(ParsePolicy):
    """Python operations may fail where `fail` says so; collections passed by the caller have 0..2 elements"""
    fallible = True

    def outcomes(self, path, ev):
        if ev.kind in ('setitem', 'pycall', 'getattr', 'import', 'extract', 'setattr', 'cast', 'dictcopy', 'dictupdate'):
            return ('ok', 'err') if self.fallible else ('ok',)
        return ('ok',)

    def lengths(self, path, o):
        return (0, 1, 2)


def generated(Q, i):
    """fn items of witness item i by (scope, name): scope is the module path, the type of an inherent impl or of a trait impl"""
    out = {}
    pre = '::w%d::' % i
    for b in Q.bodies.values():
        if b['kind'] not in ('fn', 'method', 'assoc_fn', 'AssocFn', 'Fn') and 'closure' in b['kind']:
            continue
        n = b['name']
        if pre not in n + '::' or '{closure' in n or '{constant' in n or b['blocks'] is None:
            continue
        imp = b.get('impl')
        if isinstance(imp, dict):
            s = imp['self'] if isinstance(imp['self'], str) else Q.types[imp['self']]['s']
            if imp.get('derived'):
                continue
            tr = imp.get('trait')
            scope = ('trait ' if tr else 'impl ') + strip_args(s)
            if tr and not tr.rsplit('::', 1)[-1].endswith('Methods'):
                continue
        else:
            scope = n.rsplit('::', 1)[0]
        scope = scope.replace('vpwitness_', '', 1)
        k = (scope[scope.index(pre) + len(pre):] if pre in scope else '', ('trait' if scope.startswith('trait ') else 'impl' if scope.startswith('impl ') else 'fn'), n.rsplit('::', 1)[-1])
        out.setdefault(k, []).append(b)
    return out


def strip_args(s):
    if s.startswith('pyo3::instance::Bound<'):
        s = s[len('pyo3::instance::Bound<'):].split(',', 1)[-1].strip().rstrip('>')
    return s


def argnames(Q, b):
    return [Q.types[b['locals'][1 + k] if isinstance(b['locals'][1 + k], int) else b['locals'][1 + k]['t']]['s'] for k in range(b['argc'])]


def dotted_of(t):
    """the Python path an object was reached by: dotted import, then attributes; None if it is no such object"""
    attrs = []
    while isinstance(t, Sym) and t.op == 'attr' and len(t.args) == 2:
        attrs.insert(0, t.args[1])
        t = t.args[0]
    if isinstance(t, Sym) and t.op == 'pymodule' and isinstance(t.args[0], str):
        return t.args[0], attrs
    return None


def peel(t):
    while isinstance(t, Sym) and t.op in ('ref', 'pyobj', 'some') and len(t.args) == 1:
        t = t.args[0]
    return t


def positional(path, t):
    """list of positional values a call receives; ('*', x) for a whole tuple x"""
    t = peel(t)
    if isinstance(t, Sym) and t.op == 'tup':
        return [peel(x) for x in t.args]
    if isinstance(t, tuple):
        return [peel(x) for x in t]
    if isinstance(t, Sym) and t.op == 'pytuple':
        return [peel(x) for x in t.args]
    if t is None or (isinstance(t, Sym) and t.op == 'unit'):
        return []
    return [('*', t)]


def run_generated(Q, M2, b, path, receiver=None, args=None):
    """interpret generated fn b with Python token, receiver and one symbol per further parameter; returns (outcome, arg symbols)"""
    I = Interp(Q, path, M2)
    vals, syms = [], []
    for k, ty in enumerate(argnames(Q, b)):
        if ty.startswith('pyo3::marker::Python'):
            vals.append(models.PY)
        elif k == 0 and receiver is not None:
            vals.append(Ref([receiver]))
        else:
            s = S('arg', b['name'], len(syms))
            l = b['locals'][1 + k]
            s.ty = (Q.crate, l if isinstance(l, int) else l['t'])
            syms.append((s, ty))
            vals.append(args(I, s, ty) if args else s)
    return I.call_body(b, vals)


def short_scope(k):
    return '%s%s::%s' % ({'trait': '', 'impl': '', 'fn': ''}[k[1]], k[0], k[2])


def emit(rep, P, M, name, jobs, policy=None, tops=None):
    """abstract Module::generate on every job; [(job index, results of the imports of the generator, source)]"""
    body = fn(P, 'module::Module::generate')

    def r(path):
        i = path.split(tuple(range(len(jobs))), 'case')
        path.memo['case'] = i
        mod, local = jobs[i]['make']()
        return Interp(P, path, M).call_body(body, [Ref([mod]), Ref([cfg_with(P)]), Slice([]), Slice(local)])

    def j(L, path, o):
        i = path.memo.get('case')
        if is_ok(o):
            imps = tuple(sorted({(str(e.args[0]), e.res) for e in path.events if e.kind == 'import'}))
            L.d.setdefault('out', []).append((i, imps, Witness('x').src(o[1].f[0].t)))
        elif o[0] == 'panic' or is_err(o):
            L.violation('Module::generate fails', '%s: %s' % (jobs[i]['label'], o[1]))
    pol = policy or gen_policy(P, False, kinds=())
    pol.max_steps = 4000000
    explore_all(rep, 'Module::generate', r, pol, j)
    seen, outs = set(), []
    for i, imps, src in sorted(rep.out):
        outs.append((i, imps, src))
        seen.add(i)
    rep.out[:] = []
    for i, x in enumerate(jobs):
        if i not in seen:
            rep.violation('coverage: no output for ' + x['label'], '')
    return outs


def lower(rep, name, outs, jobs):
    """compile the emitted modules; the program of their MIR"""
    W = Witness(name)
    for i, imps, src in outs:
        W.add(src, (i, imps))
    for k, msgs in W.compile().items():
        rep.violation('the generated module does not compile', '%s: %s' % (jobs[W.items[k][1][0]]['label'], '; '.join(msgs[:2])[:300]))
    return W


def interpret_all(rep, W, jobs, judge, reach, fallible=True, what='generated code', judge_err=None):
    """interpret the MIR of every expected generated fn; jobs[i]['want'] maps (scope, kind, name) to an expectation"""
    Q = W.prog
    M2 = contracts(Q)
    work = []
    for k, (_, (i, imps)) in enumerate(W.items):
        if k in W.errors:
            continue
        G = generated(Q, k)
        for key in jobs[i].get('absent', ()):
            if key in G:
                rep.violation('a binding is generated for something that Python does not offer', '%s: %s' % (jobs[i]['label'], short_scope(key)))
        for key, exp in jobs[i]['want'].items():
            bs = G.get(key, [])
            if len(bs) != 1:
                rep.violation('a binding is not generated exactly once', '%s: %s (%d times)' % (jobs[i]['label'], short_scope(key), len(bs)))
                continue
            work.append((i, imps, key, exp, bs[0]))
    pol = CallPolicy()
    pol.fallible = fallible

    def r(path):
        k = path.split(tuple(range(len(work))), 'fn')
        path.memo['fn'] = k
        return run_generated(Q, M2, work[k][4], path, receiver=S('self') if work[k][2][1] == 'trait' else None)

    def j(L, path, o):
        if 'fn' not in path.memo or o[0] in ('undecided', 'stop'):
            return
        i, imps, key, exp, b = work[path.memo['fn']]
        L.count('obligations')
        where = '%s: %s' % (jobs[i]['label'], short_scope(key))
        if o[0] == 'panic':
            L.violation('a generated binding panics', '%s: %s' % (where, o[1]))
            return
        bad = [e for e in path.events if e.res == 'err']
        if is_ok(o) and bad:
            L.violation('a generated binding hides a failure', '%s: %s %s' % (where, bad[0].kind, bad[0].args))
            return
        if is_err(o) and not bad:
            L.violation('a generated binding fails without a failing operation', '%s: %s' % (where, o[1]))
            return
        if not is_ok(o):
            if judge_err and is_err(o):
                judge_err(L, path, o[1].f[0], bad, where)
            return
        L.d['cov']['reach %d' % path.memo['fn']] = 1
        judge(L, path, o[1].f[0], exp, where, b['name'], argnames(Q, b), dict(imps))
    explore_all(rep, what, r, pol, j)
    n = 0
    for k, (i, imps, key, exp, b) in enumerate(work):
        if rep.cov.pop('reach %d' % k, 0):
            n += 1
        else:
            rep.violation('coverage: no successful path through ' + short_scope(key), jobs[i]['label'])
    rep.count(reach, n)


def the_call(path):
    """(callee object, method name or None, positional, keyword term, result term) of the only call on the path; None if there are 0 or more"""
    cs = [e for e in path.events if e.kind == 'pycall']
    if len(cs) != 1:
        return None
    o, n, *rest = cs[0].args
    return o, n, rest[0] if rest else None, rest[1] if len(rest) > 1 else None, S('ret', *cs[0].args)


def keywords(path, t):
    """(base mapping or None, {name: value}) passed as keywords"""
    if t is None:
        return None, {}
    while isinstance(t, Sym) and (t.op in ('ref', 'some') or t.op == 'adt' and t.args[0] == 'Option' and len(t.args) > 2):
        t = t.args[-1]
    if isinstance(t, Sym) and t.op == 'adt' and t.args[0] == 'Option':
        return None, {}
    return _dict(path, t, len(path.events))


def _dict(path, t, upto):
    """(mapping t started from, its later entries) as of event number `upto`"""
    base, sets = t, {}
    if isinstance(t, Sym) and t.op == 'newdict':
        base = None
    if isinstance(t, Sym) and t.op == 'dictcopy':
        base, sets = _dict(path, peel(t.args[0]), t.args[1])
    for e in path.events[:upto]:
        if e.kind == 'setitem' and e.args[0] is t and e.res != 'err':
            k = e.args[1]
            while isinstance(k, Sym) and k.op in ('pystr', 'ref') and len(k.args) == 1:
                k = k.args[0]
            sets[k] = peel(e.args[2])
        if e.kind == 'dictupdate' and e.args[0] is t and e.res != 'err':
            b, s = _dict(path, peel(e.args[1]), upto)
            base = b if base is None else base if b is None else S('merged', base, b)
            sets.update(s)
    return base, sets


def unconvert(t):
    """the value behind conversions that keep the value"""
    while isinstance(t, Sym) and (t.op in ('ref', 'pydict', 'pyobj', 'some') and len(t.args) == 1 or t.op == 'adt' and t.args[0] == 'Option' and len(t.args) == 3):
        t = t.args[-1]
    return t


def is_result(path, out, ret):
    """the value returned is what pyo3 extracted from the result of the call"""
    out = unconvert(out)
    if isinstance(out, Sym) and out.op in ('int', 'str', 'bool') and len(out.args) == 1:
        out = out.args[0]
    return out is ret and any(e.kind == 'extract' and e.res == 'ok' and peel(e.args[0]) is ret for e in path.events)
