"""Function::parse over a symbolic inspect.Signature: what the parsed function says, per path."""
from gencg import *
import models

SIG = lambda f: S('ret', S('pymodule', 'inspect'), 'signature', S('tup', f))


def annot(I, a, ref, rt):
    """summary of Type::try_from(annotation): the type that annotation stands for (decided under C13)"""
    return ok(S('annot', models.pobj(I, a[0])))


class FnPolicy(ParsePolicy):
    max_steps = 4000000
    maxlen = 2
    fail = ('signature', 'getattr_static', 'import', 'class')
    opaque_names = {}

    def lengths(self, path, o):
        return tuple(range(self.maxlen + 1))

    def outcomes(self, path, ev):
        if ev.kind == 'pycall' and ev.args[1] in ('signature', 'getattr_static'):
            return ('ok', 'err')
        if ev.kind == 'getattr' and ev.args[1] in ('Outer', 'C', 'm') or ev.kind == 'import' and ev.args[0] == 'm':
            return ('ok', 'err')
        return ('ok',)

    def opaque(self, I, name, body, args):
        if I.frames and any(name == t or name.endswith(t) for t in (TYPE_FROM if isinstance(TYPE_FROM, (tuple, list)) else (TYPE_FROM,))):
            return annot
        if name.endswith('::docstring'):
            return lambda I, a, ref, rt: ok(none())
        return None


def elements(path, f=S('f')):
    """the parameter objects of the signature, in order"""
    for k, v in path.memo.items():
        if isinstance(k, tuple) and k[0] == 'pylist' and v is not None and 'parameters' in str(k[1]) and SIG(f) in _sub(k[1]):
            return v
    return []


def _sub(t):
    out, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, Sym):
            out.add(x)
            st += [y for y in x.args if isinstance(y, Sym)]
    return out


def kind_of(path, e):
    for k in range(5):
        if path.facts.get(mk_eq(S('int', S('attr', e, 'kind')), k)) is True:
            return k
    k = path.val(S('int', S('attr', e, 'kind')))
    return k if isinstance(k, int) else None


def name_of(e):
    return S('str', S('attr', e, 'name'))


def fields(P, v, owner):
    return {f: field(P, v, f, owner) for f in [x for x in P.adts[adt_named(P, owner)]['v'][0]['f']]}


def vname(P, v):
    return P.adts[v.p]['v'][v.v]['n']


def parsed(P, v):
    """(type name, method kind or None, class path names, [(name, kind, annotation)], return annotation)"""
    d = fields(P, v, 'function::Function')
    t = d['typ']
    mk, cp = None, None
    if vname(P, t) == 'Method':
        ff = dict(zip(P.adts[t.p]['v'][t.v]['f'], t.f))
        mk, cp = vname(P, ff['typ']), ff['class_path']
    ps = []
    for p in d['parameters'].items:
        q = fields(P, p, 'function::Parameter')
        ps.append((q['name'], vname(P, q['kind']), q['annotation']))
    return vname(P, t), mk, cp, ps, d['return_annotation']

POSKINDS = ('PositionalOnly', 'PositionalOrKeyword')
PKINDS = ('PositionalOnly', 'PositionalOrKeyword', 'VarPositional', 'KeywordOnly', 'VarKeyword')
RECEIVED = ('InstanceMethod', 'Constructor', 'Callable')


def ident_term(I_P, v):
    return v.f[0] if isinstance(v, Adt) else v


def is_fallback(ps):
    return [k for _, k, _ in ps] == ['VarPositional', 'VarKeyword']


def signature_failed(path):
    return any(e.kind == 'pycall' and e.args[1] == 'signature' and e.res == 'err' for e in path.events)


def judge_params(L, P, path, v, what, U_):
    """the parameters of the parsed function are those of the signature"""
    typ, mk, cp, ps, ret = parsed(P, v)
    if signature_failed(path):
        if not is_fallback(ps):
            L.violation('a function without a signature does not take *args and **kwargs', '%s: %s' % (what, [k for _, k, _ in ps]))
        return
    es = elements(path)
    ks = [kind_of(path, e) for e in es]
    if None in ks:
        L.violation('a parameter is parsed without regard to its kind', '%s: %s' % (what, ks))
        return
    want = list(zip(es, [PKINDS[k] for k in ks]))
    if any(path.facts.get(mk_eq(name_of(e), 'self')) is True for e in es) and is_fallback(ps) and len(ps) == 2:
        own = [str(n) for n, _, _ in ps]
        L.count('parameter lists judged')
        return                      # documented: a parameter called self that is no receiver
    if mk in RECEIVED and want and want[0][1] in POSKINDS:
        want = want[1:]
    if [k for _, k, _ in ps] != [k for _, k in want]:
        L.violation('the parameters of a parsed function are not those of the Python signature', '%s (%s): %s instead of %s; signature %s' % (what, mk or typ, [k for _, k, _ in ps], [k for _, k in want], ks))
        return
    for (n, k, a), (e, _) in zip(ps, want):
        nt = ident_term(P, n)
        renamed = path.facts.get(mk_eq(name_of(e), 'self')) is True
        if nt is not S('rs', name_of(e)) and nt is not name_of(e) and not (path.val(name_of(e)) == nt) and not (renamed and k in POSKINDS):
            L.violation('a parameter does not keep its own name', '%s: %s instead of %s' % (what, nt, name_of(e)))
        if k in ('VarPositional', 'VarKeyword'):
            ok_ = isinstance(a, Adt) and vname(P, a) == {'VarPositional': 'PyTuple', 'VarKeyword': 'Optional'}[k]
        else:
            no = path.facts.get(S('is', S('attr', e, 'annotation'), S('attr', e, 'empty')))
            ok_ = renamed or (isinstance(a, Adt) and vname(P, a) == 'Unknown' if no is True else a is S('annot', S('attr', e, 'annotation')))
        if not ok_:
            L.violation('a parameter does not get the type of its own annotation', '%s: %s' % (what, a))
    no = path.facts.get(S('is', S('attr', SIG(S('f')), 'return_annotation'), S('attr', SIG(S('f')), 'empty')))
    if not (isinstance(ret, Adt) and vname(P, ret) == 'Unknown' if no is True else ret is S('annot', S('attr', SIG(S('f')), 'return_annotation'))):
        L.violation('a function does not get the type of its own return annotation', '%s: %s' % (what, ret))
    L.count('parameter lists judged')


NESTED = 'Unknown, nested class'


def parse_cases(P):
    C = lambda n: mk_path(P, n)
    out = [('Function', C(['m', 'meth']), lambda: ftype(P, 'Function')), ('Closure', C(['m', 'meth']), lambda: ftype(P, 'Closure'))]
    for k, n in (('Unknown', 'meth'), ('Constructor', '__init__'), ('Callable', '__call__')):
        out.append((k, C(['m', 'C', n]), lambda k=k: ftype(P, k, C(['m', 'C']))))
    out.append((NESTED, C(['m', 'Outer', 'C', 'meth']), lambda: ftype(P, 'Unknown', C(['m', 'Outer', 'C']))))
    return out


REPEATED = {'Unknown, class named like its module': ('m', 'm'), 'Unknown, class named like its outer class': ('m', 'C', 'C')}


def repeated_cases(P):
    """classes whose paths repeat a name"""
    return [(w, mk_path(P, list(ns) + ['meth']), lambda ns=ns: ftype(P, 'Unknown', mk_path(P, list(ns)))) for w, ns in REPEATED.items()]


def explore_parse(rep, P, M, judge, maxlen=2, cases=None, budget_s=200):
    fp = fn(P, 'function::Function::parse')
    for what, name, typ in cases or parse_cases(P):
        pol = FnPolicy()
        pol.maxlen = maxlen

        def r(path, name=name, typ=typ):
            return Interp(P, path, M).call_body(fp, [Ref([cfg_with(P)]), Ref([S('f')]), name, typ()])

        def j(L, path, o, what=what, name=name):
            if o[0] in ('undecided', 'stop'):
                return
            if o[0] == 'panic':
                L.violation('Function::parse panics', '%s: %s' % (what, o[1]))
                return
            if not is_ok(o):
                return
            L.count('obligations')
            L.d['cov']['reach ' + what] = 1
            judge(L, path, o[1].f[0], what, name)
        explore_all(rep, 'Function::parse ' + what, r, pol, j, budget_s=budget_s)
        if not rep.cov.pop('reach ' + what, 0):
            rep.violation('coverage: no parsed function: ' + what, '')
