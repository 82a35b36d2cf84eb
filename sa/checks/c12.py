"""C12 generated code type-checks for every type mapping, kind and position"""
import itertools
from tree import P_
from gencg import *
from witness import Witness

TY = 'typing::Type'


def variants(P):
    return {v['n']: v['f'] for v in P.adts[adt_named(P, TY)]['v']}


class Types:
    """constructors of concrete Type values; a type is described by a nested tuple"""

    def __init__(self, P):
        self.P, self.V = P, variants(P)
        self.leaves = [n for n, f in self.V.items() if not f]

    def mk(self, d):
        if isinstance(d, str):
            return enum(self.P, TY, d)
        n, *xs = d
        if n == 'Other':
            return enum(self.P, TY, 'Other', xs[0])
        f = self.V[n]
        if n in ('Union', 'PyTuple'):
            return enum(self.P, TY, n, Lst([self.mk(x) for x in xs]))
        if n == 'PyFunction':
            v = {'param_types': Lst([self.mk(x) for x in xs[:-1]]), 'return_annotation': Box_(self.mk(xs[-1]))}
            return enum(self.P, TY, n, *[v[k] for k in f])
        return enum(self.P, TY, n, *[Box_(self.mk(x)) for x in xs])

    def all(self, depth2=True):
        """every variant alone, every variant inside every container, and containers of containers"""
        leaves = self.leaves + [('Other', 'm.C'), ('Other', 'm.C[int]'), ('Other', 'elsewhere.D'), ('Other', 'T')]
        out = list(leaves)
        w1 = lambda t: [('Optional', t), ('PyList', t), ('PySet', t), ('PyFrozenSet', t), ('PyTuple', t), ('PyTuple', t, t), ('PyTuple', t, 'PyEllipsis'),
                        ('PyTuple', 'PyString', t, 'PyLong'), ('PyDict', 'PyString', t), ('PyDict', t, 'PyLong'), ('Union', t, 'PyLong'), ('PyFunction', t, t)]
        lv1 = [('PyTuple',), ('Union',), ('PyFunction', 'PyNone')] + [c for t in leaves for c in w1(t)]
        out += lv1
        base = ['PyLong', 'PyString', 'PyFloat', 'PyBytes', 'PyAny', 'PyNone', 'Path', 'PyDate', 'PyModule', ('Other', 'm.C'), ('Other', 'elsewhere.D')]
        for t in base if depth2 else ['PyLong', 'PyAny']:
            for a in w1(t):
                out += w1(a) if depth2 else [w for w in w1(a) if w[0] != 'PyFunction' and w[-1] != 'PyEllipsis']
        out += [('PyTuple',) + ('PyLong',) * n for n in (11, 12, 13)]
        seen, r = set(), []
        for t in out:
            if t not in seen:
                seen.add(t)
                r.append(t)
        return r


def show(d):
    return d if isinstance(d, str) else '%s(%s)' % (d[0], ', '.join(map(show, d[1:])))


VARARGS = lambda P: param(P, 'args', 'VarPositional', ann=Types(P).mk(('PyTuple', 'Unknown')))
VARKW = lambda P: param(P, 'kwargs', 'VarKeyword', ann=Types(P).mk(('Optional', ('PyDict', 'Unknown', 'Unknown'))))


def signatures(P, t):
    """parameter lists that put a type in every position; t() makes a fresh value of it"""
    p = lambda n, k: param(P, n, k, ann=t())
    return {'one': lambda: [p('x', 'PositionalOrKeyword')],
            'posonly': lambda: [p('a', 'PositionalOnly'), p('x', 'PositionalOrKeyword')],
            'varargs': lambda: [p('x', 'PositionalOrKeyword'), VARARGS(P)],
            'kwonly': lambda: [p('k', 'KeywordOnly')],
            'kwonly2': lambda: [p('x', 'PositionalOrKeyword'), p('k', 'KeywordOnly'), p('l', 'KeywordOnly')],
            'all': lambda: [p('a', 'PositionalOnly'), p('x', 'PositionalOrKeyword'), VARARGS(P), p('k', 'KeywordOnly'), VARKW(P)]}


def typed_module(P, T, d):
    """a module that uses the type in every position of every kind of item"""
    t = lambda: T.mk(d)
    sig = signatures(P, t)
    fs = [function(P, P_(P, 'm.f_' + n), 'Function', None, s(), t()) for n, s in sig.items()]
    ms = [function(P, P_(P, 'm.C.%s_%s' % (k, n)), k, P_(P, 'm.C'), sig[n](), t()) for k in ('InstanceMethod', 'ClassMethod', 'StaticMethod') for n in ('one', 'kwonly2', 'all')]
    ms += [function(P, P_(P, 'm.C.__init__'), 'Constructor', P_(P, 'm.C'), sig['all'](), t()), function(P, P_(P, 'm.C.__call__'), 'Callable', P_(P, 'm.C'), sig['all'](), t())]
    cls = klass(P, P_(P, 'm.C'), methods=ms, properties=[prop(P, P_(P, 'm.C.prop'), 'Class', True, t(), t())])
    cls2 = klass(P, P_(P, 'm.C2'), methods=[function(P, P_(P, 'm.C2.__call__'), 'Callable', P_(P, 'm.C2'), sig['one'](), t()), function(P, P_(P, 'm.C2.__init__'), 'Constructor', P_(P, 'm.C2'), sig['one'](), t())])
    return module(P, P_(P, 'm'), classes=[cls, cls2], functions=fs, properties=[prop(P, P_(P, 'm.val'), 'Module', True, t(), t())])


def small_module(P, T, d):
    """the positions that differ in kind: parameter by position and by keyword, result, getter, setter"""
    t = lambda: T.mk(d)
    sig = signatures(P, t)
    cls = klass(P, P_(P, 'm.C'), methods=[function(P, P_(P, 'm.C.f'), 'InstanceMethod', P_(P, 'm.C'), sig['all'](), t())], properties=[prop(P, P_(P, 'm.C.prop'), 'Class', True, t(), t())])
    return module(P, P_(P, 'm'), classes=[cls], functions=[function(P, P_(P, 'm.f_' + n), 'Function', None, sig[n](), t()) for n in ('posonly', 'kwonly2')])


NAMES = ('as break const continue else enum extern false fn for if impl in let loop match mod move mut pub ref return static struct trait true type unsafe use where while '
         'async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen union default auto raw macro_rules '
         'self Self super crate py obj str new call get_type clone borrow len iter Vec Option Result String Some None Ok Err Bound PyAny i64 T x y self_ as_any getattr').split()
ODD = ['with-dash', '1st', '\u00e9', 'a b', '']


def named_module(P, n, kind):
    """items of one kind with an unusual name"""
    u = lambda nm, ann='Unknown', k='PositionalOrKeyword': param(P, nm, k, ann=enum(P, TY, ann))
    q = lambda *xs: mk_path(P, list(xs))
    pt = lambda nm, w, k: param(P, nm, k, ann=Types(P).mk([('Other', 'm.' + n), ('Optional', ('Other', 'm.' + n)), ('PyList', ('Other', 'm.' + n))][w]))     # of the type of that name
    m = lambda **k: module(P, P_(P, 'm'), doc='docs', **k)
    c = lambda **k: m(classes=[klass(P, q('m', 'C'), doc='docs', **k)])
    if kind == 'function':
        return m(functions=[function(P, q('m', n), 'Function', None, [u('x'), u('y', 'PyLong')])])
    if kind == 'parameter':
        return m(functions=[function(P, q('m', 'f'), 'Function', None, [u(n), u('other', 'PyString', 'KeywordOnly')]), function(P, q('m', 'g'), 'Function', None, [u('a', 'PyLong'), u(n, 'PyString', 'KeywordOnly')])])
    if kind == 'class':
        return m(classes=[klass(P, q('m', n), methods=[function(P, q('m', n, '__init__'), 'Constructor', q('m', n), [u('x')]), function(P, q('m', n, 'f'), 'InstanceMethod', q('m', n), [u('x')])],
                                properties=[prop(P, q('m', n, 'p'))])], functions=[function(P, q('m', 'f'), 'Function', None, [u('x')], enum(P, TY, 'Other', 'm.' + n))])
    if kind == 'class beside functions':
        T = Types(P)
        ty = ('PyTuple', ('PyList', 'PyLong'), ('PyDict', 'PyString', 'PyFloat'), ('Optional', 'PyBytes'), ('PySet', 'PyBool'), 'Path', 'PyDelta', ('Other', 'elsewhere.D'))
        sig = signatures(P, lambda: T.mk(ty))
        return m(classes=[klass(P, q('m', n), methods=[function(P, q('m', n, 'f'), 'InstanceMethod', q('m', n), sig['all'](), T.mk(ty))])],
                 functions=[function(P, q('m', 'g'), 'Function', None, [pt('x', 0, 'PositionalOrKeyword'), pt('k', 0, 'KeywordOnly'), pt('o', 1, 'KeywordOnly'), pt('l', 2, 'KeywordOnly')],
                                     enum(P, TY, 'Other', 'm.' + n))] + [function(P, q('m', 'f_' + k), 'Function', None, f(), T.mk(ty)) for k, f in sig.items()], properties=[prop(P, q('m', 'v'), 'Module', True, T.mk(ty), T.mk(ty)), prop(P, q('m', 'w'), 'Module', True, *[enum(P, TY, 'Other', 'm.' + n) for _ in (0, 1)])])
    if kind == 'method':
        return c(methods=[function(P, q('m', 'C', n), k, q('m', 'C'), [u('x')]) for k in ('InstanceMethod',)] + [function(P, q('m', 'C', '__init__'), 'Constructor', q('m', 'C'), []), function(P, q('m', 'C', '__call__'), 'Callable', q('m', 'C'), [])])
    if kind == 'static method':
        return c(methods=[function(P, q('m', 'C', n), 'StaticMethod', q('m', 'C'), [u('x')])] + [function(P, q('m', 'C', '__init__'), 'Constructor', q('m', 'C'), []), function(P, q('m', 'C', '__call__'), 'Callable', q('m', 'C'), [])])
    if kind == 'class property':
        return c(properties=[prop(P, q('m', 'C', n))], methods=[function(P, q('m', 'C', '__init__'), 'Constructor', q('m', 'C'), []), function(P, q('m', 'C', '__call__'), 'Callable', q('m', 'C'), [])])
    if kind == 'module property':
        return m(properties=[prop(P, q('m', n), 'Module')])
    if kind == 'type variable':
        return m(type_vars=[typevar(P, q('m', n))])
    if kind == 'submodule':
        return m(submodules=[module(P, q('m', n), classes=[klass(P, q('m', n, 'C'))], functions=[function(P, q('m', n, 'f'), 'Function', None, [u('x')], enum(P, TY, 'Other', 'm.%s.C' % n))])])


def shape_modules(P, T):
    """every shape of a parameter list, and receivers, for every kind of callable, with the generic object type"""
    kinds = ('PositionalOnly', 'PositionalOrKeyword', 'VarPositional', 'KeywordOnly', 'VarKeyword')
    shapes = []
    for n in itertools.product((0, 1, 2), (0, 1, 2), (0, 1), (0, 1, 2), (0, 1)):
        shapes.append([k for k, c in zip(kinds, n) for _ in range(c)])
    fks = ('Function', 'Closure', 'InstanceMethod', 'ClassMethod', 'StaticMethod', 'Constructor', 'Callable')
    for ann, fk, lo in itertools.product(('Unknown', 'PyLong'), fks, range(0, len(shapes), 24)):
        part = shapes[lo:lo + 24]

        def mk(ann=ann, fk=fk, part=part):
            def ps(sh):
                return [VARARGS(P) if k == 'VarPositional' else VARKW(P) if k == 'VarKeyword' else param(P, 'a%d' % i, k, ann=T.mk(ann)) for i, k in enumerate(sh)]
            if fk in ('Function', 'Closure'):
                return module(P, P_(P, 'm'), functions=[function(P, P_(P, 'm.f%d' % i), fk, None, ps(s), T.mk(ann)) for i, s in enumerate(part)])
            nm = {'Constructor': '__init__', 'Callable': '__call__'}.get(fk)
            if nm:
                return module(P, P_(P, 'm'), classes=[klass(P, P_(P, 'm.C%d' % i), methods=[function(P, P_(P, 'm.C%d.%s' % (i, nm)), fk, P_(P, 'm.C%d' % i), ps(s), T.mk(ann))]) for i, s in enumerate(part)])
            return module(P, P_(P, 'm'), classes=[klass(P, P_(P, 'm.C'), methods=[function(P, P_(P, 'm.C.f%d' % i), fk, P_(P, 'm.C'), ps(s), T.mk(ann)) for i, s in enumerate(part)])])
        yield '%s, parameters %s, shapes %s...' % (fk, ann, '/'.join(part[0]) or 'none'), mk, len(part)


def run(rep):
    P = program()
    M = contracts(P)
    T = Types(P)
    body = fn(P, 'module::Module::generate')
    thorough = rep.tier != 'quick'
    shallow = set(t for t in T.all(False) if isinstance(t, str) or all(isinstance(x, str) or x[0] == 'Other' for x in t[1:]))
    jobs = [('type ' + show(d), (lambda d=d: typed_module(P, T, d)) if d in shallow else (lambda d=d: small_module(P, T, d)), 23 if d in shallow else 5) for d in T.all(thorough)]
    jobs += list(shape_modules(P, T))
    for n in NAMES + ODD:
        for kind in ('function', 'parameter', 'class', 'method', 'static method', 'class property', 'module property', 'type variable', 'submodule', 'class beside functions'):
            if kind == 'submodule' and n in ODD + ['self', 'Self', 'super', 'crate'] or kind == 'parameter' and (n == '' or n in ODD):
                continue            # a module of such a name is an error by design; parameters are Python identifiers
            jobs.append(('a %s named %r' % (kind, n), lambda n=n, kind=kind: named_module(P, n, kind), 2, [mk_path(P, ['m', n])] if kind in ('class', 'class beside functions') else []))
    srcs = {}

    def r(path):
        i = path.split(tuple(range(len(jobs))), 'case')
        path.memo['case'] = i
        mod = jobs[i][1]()
        return Interp(P, path, M).call_body(body, [Ref([mod]), Ref([cfg_with(P)]), Slice([]), Slice([P_(P, 'm.C'), P_(P, 'm.C2')] + (jobs[i][3] if len(jobs[i]) > 3 else []))])

    def j(L, path, o):
        i = path.memo.get('case')
        if is_ok(o):
            L.d.setdefault('out', []).append((i, Witness('x').src(o[1].f[0].t)))
        elif o[0] == 'panic' or is_err(o):
            L.violation('Module::generate fails', '%s: %s' % (jobs[i][0], o[1]))
    pol = gen_policy(P, False, kinds=())
    pol.max_steps = 4000000
    explore_all(rep, 'Module::generate', r, pol, j)
    got = dict(rep.out)
    W = Witness('c12')
    for i, (name, _, n, *_types) in enumerate(jobs):
        if i not in got:
            rep.violation('coverage: no output for ' + name, '')
        else:
            W.add(got[i], (name, n))
            rep.count('generated callables', n)
    errs = W.compile(want_mir=False)
    rep.count('obligations', len(W.items))
    for i, msgs in errs.items():
        name = W.items[i][1][0]
        rep.violation('the code generated for %s does not compile' % name, '; '.join(msgs[:2])[:300])
    return dict(level='other',
                rule='(compile witness) Module::generate is interpreted abstractly on one module per type (every variant of Type, bare and within every container; thorough: containers within containers) '
                     'with the type in every position of every kind of item, on every shape of a parameter list for every kind of callable, and on every unusual item name; the token stream of each '
                     'module is type-checked by rustc against pyo3. A module whose tokens do not type-check is a violation, as is a module for which the generator panics or errs.',
                assumptions=['pyo3 0.21.2 as locked in /repo; the numpy feature is off (the crate is not available offline)',
                             'type nesting beyond the enumerated depth is generated by the same recursive functions, each of which is covered with every child variant',
                             'token streams are rendered by spelling every token; spans and hygiene play no part (procedural macro output uses call-site hygiene)'],
                explanation='Types x positions x callable kinds are enumerated completely up to the stated depth; each generated item is an obligation that rustc discharges without running anything.')
