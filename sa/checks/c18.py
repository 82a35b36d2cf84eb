"""C18 generated names never clash with functions or reserved names of their scope"""
from tree import *
from gencg import *
from checks.c08 import KW

RESERVED = ('get_type', 'obj', 'py', 'repr', 'str')


def fns(ts):
    """(scope, name) of every fn item of a stream; scope: the kind of block it is in"""
    out = []

    def tx(x):
        return x[1] if isinstance(x, tuple) and x[0] == 'id' else x if isinstance(x, (str, Sym)) else None

    def go(t, scope):
        head = []
        for i, x in enumerate(t):
            if isinstance(x, tuple) and x[0] == 'group':
                if x[1] == 'b':
                    if 'fn' in head:
                        sc = None                   # a body
                    elif 'trait' in head:
                        sc = 'trait'
                    elif 'impl' in head:
                        sc = 'trait impl' if 'for' in head else 'impl'
                    elif 'mod' in head:
                        sc = 'mod'
                    else:
                        sc = scope
                    if sc:
                        go(x[2], sc)
                    head = []
                elif x[1] == 'n':
                    go(x[2], scope)
                continue
            v = tx(x)
            if v == 'fn' and i + 1 < len(t):
                out.append((scope, tx(t[i + 1])))
            if x == ('p', ';', False) or v == ';' or (isinstance(x, tuple) and x[0] == 'p' and x[1] == ';'):
                head = []
            elif isinstance(v, str):
                head.append(v)
    go(ts.t, 'top')
    return out


def py(t):
    """Python spelling of an identifier token"""
    n = env.py_name(t)
    return n if n is not None else t


def lexes(n):
    """is the Rust spelling of this Python name an identifier"""
    return ident_lexes(n) or n in KW


def infeasible(path, names):
    """facts about names that no names satisfy (equal names of different validity)"""
    cl = {n: {n} for n in names}
    for a in names:
        for b in names:
            if a is not b and path.facts.get(mk_eq(a, b)) is True:
                u = cl[a] | cl[b]
                for x in u:
                    cl[x] = u
    for u in cl.values():
        vs = {path.val(x) for x in u if isinstance(path.val(x), str)}
        ok_ = {path.facts.get(S('valid_ident', S('rs', x))) for x in u} - {None} | {lexes(v) for v in vs}
        if len(vs) > 1 or len(ok_) > 1:
            return True
    return False


def atoms(t):
    if isinstance(t, Sym):
        if t.op == 'nm':
            return {t.args[0]}
        return set().union(set(), *[atoms(a) for a in t.args])
    return set()


class NamePolicy(type(gen_policy(None, False, kinds=())) if False else GenPolicy):
    max_steps = 4000000


def run(rep):
    P = program()
    M = contracts(P)
    thorough = rep.tier != 'quick'
    cgen, mgen = fn(P, 'class::Class::generate'), fn(P, 'module::Module::generate')
    N = lambda *x: mk_path(P, [S('nm', y) for y in x])
    nm = lambda x: S('nm', x)
    par = lambda: [param(P, S('nm', 'arg'), 'PositionalOrKeyword')]
    KINDS = {'i': 'InstanceMethod', 's': 'StaticMethod', 'c': 'ClassMethod'}

    def cls(ms, p):
        C = N('m', 'C')
        xs = []
        for n, k in ms:
            if k in KINDS:
                xs.append(function(P, N('m', 'C', n), KINDS[k], N('m', 'C')))
            else:
                xs.append(function(P, mk_path(P, [nm('m'), nm('C'), {'N': '__init__', 'L': '__call__'}[k]]), {'N': 'Constructor', 'L': 'Callable'}[k], N('m', 'C')))
        return klass(P, C, methods=xs, properties=[prop(P, N('m', 'C', p), mutable=p != 'r')] if p else [])

    def mod(ms, p):
        return module(P, N('m'), functions=[function(P, N('m', n), {'f': 'Function', 'z': 'Closure'}[k]) for n, k in ms], properties=[prop(P, N('m', p), 'Module', p != 'r')] if p else [])
    scen = [('class', [('f', 'i')], 'p'), ('class', [('f', 's')], 'p'), ('class', [('f', 'i'), ('g', 's')], 'p'), ('class', [('', 'N')], 'p'), ('class', [('', 'L')], 'p'),
            ('class', [('f', 'i'), ('', 'N')], 'p'), ('class', [('', 'L'), ('f', 'c')], 'p'), ('class', [('f', 'i'), ('', 'N'), ('', 'L')], None), ('class', [('f', 'i'), ('g', 's'), ('', 'N')], None),
            ('class', [('f', 'i'), ('g', 's'), ('', 'L')], None), ('class', [], 'p'), ('module', [('f', 'f')], 'p'), ('module', [('f', 'f'), ('g', 'z')], 'p'), ('module', [], 'p'), ('module', [('f', 'z')], None),
            ('class', [('', 'N'), ('', 'L')], 'p'), ('class', [], 'r'), ('class', [('f', 'i')], 'r'), ('class', [('', 'N')], 'r'), ('module', [('f', 'f')], 'r')]
    if thorough:
        scen += [('class', [('f', 'i'), ('', 'N'), ('', 'L')], 'p'), ('class', [('f', 'i'), ('g', 'c'), ('', 'N')], 'p'), ('class', [('f', 'i'), ('g', 's'), ('h', 'i'), ('', 'N')], None),
                 ('module', [('f', 'f'), ('g', 'f'), ('h', 'f')], 'p')]
    pol = gen_policy(P, False, kinds=())
    pol.max_steps = 4000000
    for owner, ms, p in scen:
        what = '%s with %s%s' % (owner, '+'.join({'N': 'constructor', 'L': 'callable'}.get(k, 'function') for _, k in ms) or 'no function', '' if not p else ' and a read-only property' if p == 'r' else ' and a property')

        def r(path, owner=owner, ms=ms, p=p):
            I = Interp(P, path, M)
            # the names of the scope itself are valid identifiers here; they are varied below
            for x in ('m', 'C'):
                path.assume(S('valid_ident', S('rs', nm(x))), True)
            if owner == 'class':
                return I.call_body(cgen, [Ref([cls(ms, p)]), Ref([cfg_with(P)]), Ref([HMap(False, 'Fx')])])
            return I.call_body(mgen, [Ref([mod(ms, p)]), Ref([cfg_with(P)]), Slice([]), Slice([])])

        def j(L, path, o, owner=owner, ms=ms, p=p, what=what):
            if o[0] in ('undecided', 'stop'):
                return
            if o[0] == 'panic':
                L.violation('generating a %s panics' % owner, '%s: %s' % (what, o[1]))
                return
            if not is_ok(o):
                if not any(k == S('valid_ident', S('rs', cat(S('rs', nm('C')), 'Methods'))) and v is False for k, v in path.facts.items()):
                    L.violation('a name within a %s makes the generation fail' % owner, '%s: %s' % (what, o[1]))
                return
            if infeasible(path, [nm(x) for x in [x for x, _ in ms if x] + [p] * bool(p)]):
                return
            L.count('obligations')
            L.d['cov']['reach ' + what] = 1
            judge(L, path, owner, ms, p, what, fns(o[1].f[0]))
        explore_all(rep, what, r, pol, j, budget_s=100)
        if not rep.cov.pop('reach ' + what, 0):
            rep.violation('coverage: no path for a %s' % what, '')
    invalid(rep, P, M, pol)
    return dict(level='other',
                rule='For every listed scope, with all names symbolic, on every abstract path of Class::generate and Module::generate: a getter is emitted under the property name only if the path excludes that this is a '
                     'function, constructor or callable name of the scope or a reserved one, under get_ only if it does not exclude it, and is left out only if both are taken (or no identifiers); a setter is emitted '
                     'unless its name is taken; constructors and callables take the first free of new, new1, .. and call, call1, ..; functions with reserved names are not emitted; the trait and its implementation '
                     'agree. For every kind of item and every listed name that is no identifier: modules are errors, other items are sanitised or skipped and do not affect their neighbours.',
                assumptions=['reserved names: get_type, obj, py, repr, str', 'a sanitised function name (f_..) is not compared with the names of properties', 'scopes of up to three functions and one property'],
                explanation='The decision between names is a chain of comparisons of symbolic names; every combination of their outcomes is explored and judged against the rule.')


def judge(L, path, owner, ms, p, what, got):
    scopes = {}
    for s, n in got:
        scopes.setdefault(s, []).append(n)
    if owner == 'class':
        a, b = scopes.get('trait', []), scopes.get('trait impl', [])
        if a != b:
            L.violation('the trait of a class and its implementation declare different methods', '%s: %s vs %s' % (what, a, b))
        emitted = a + scopes.get('impl', [])
    else:
        emitted = scopes.get('mod', [])
    nm = lambda x: S('nm', x)
    ok_ = lambda t: path.known(S('valid_ident', S('rs', t))) if isinstance(t, Sym) else True
    def sub(t):
        if isinstance(t, Sym) and t.op == 'cat':
            return cat(*[path.val(x) if isinstance(x, Sym) else x for x in t.args])
        return path.val(t) if isinstance(t, Sym) else t

    def eq(a, b):
        v = path.facts.get(mk_eq(a, b)) if isinstance(a, Sym) or isinstance(b, Sym) else None
        if v is not None:
            return v
        for x, y in ((a, b), (sub(a), sub(b))):
            if isinstance(x, str) and isinstance(y, str):
                return x == y
            v = path.known_eq(x, y)
            if v is not None:
                return v
        return None
    plain = [n for n, k in ms if n]
    is_reserved = lambda t: [eq(t, r) for r in RESERVED]
    # functions
    special, rest = [], list(emitted)
    for n in plain:
        mine = [t for t in emitted if n in atoms(t)]
        res = is_reserved(nm(n))
        if True in res or isinstance(path.val(nm(n)), str) and path.val(nm(n)) in RESERVED:
            if mine or any(t in RESERVED for t in emitted):
                L.violation('a function with a reserved name is emitted', '%s: %s' % (what, [r for r, x in zip(RESERVED, res) if x]))
            continue
        v = path.val(nm(n))
        if isinstance(v, str):
            mine = mine or [t for t in emitted if t == env.rs_name(None, v)]
        if len(mine) > 1:
            L.violation('a function is emitted twice', '%s: %s' % (what, mine))
        elif mine and mine[0] is S('rs', nm(n)):
            if None in res:
                L.violation('a function that may have a reserved name is emitted', '%s: nothing excludes the name %s' % (what, [r for r, x in zip(RESERVED, res) if x is None][0]))
        elif mine:
            if ok_(nm(n)) is not False and not isinstance(v, str):
                L.violation('a function with a valid name is renamed', '%s: %s' % (what, mine[0]))
        elif ok_(nm(n)) is not False:
            L.violation('a function with a valid, unreserved name is not emitted', what)
        for t in mine[:1]:
            rest.remove(t)
        L.count('functions judged')
    # constructors and callables
    for n, k in ms:
        if n:
            continue
        base = {'N': 'new', 'L': 'call'}[k]
        mine = [t for t in emitted if isinstance(t, str) and t.rstrip('0123456789') == base and not any(path.val(nm(x)) == t for x in plain)]
        if len(mine) != 1:
            L.violation('a %s is not emitted exactly once' % {'N': 'constructor', 'L': 'callable'}[k], '%s: %s' % (what, emitted))
            continue
        t = mine[0]
        special.append(t)
        rest.remove(t)
        i = int(t[len(base):] or 0)
        for c in range(i + 1):
            cand = base + (str(c) if c else '')
            es = [eq(nm(x), cand) for x in plain]
            if c < i and True not in es:
                L.violation('a constructor or callable does not take the first free name', '%s: %s although %s may be free' % (what, t, cand))
            if c == i and any(e is not False for e in es):
                L.violation('a constructor or callable takes the name of a method', '%s: %s' % (what, t))
        L.count('constructors and callables judged')
    if not p:
        return
    # property accessors
    P_ = nm(p)
    forms = {'': P_, 'get_': cat('get_', P_), 'set_': cat('set_', P_)}
    taken, why = {}, {}
    for f, t in forms.items():
        names = [nm(x) for x in plain] + special + list(RESERVED)
        es = [eq(t, x) for x in names]
        taken[f] = True if True in es else None if None in es else False
        why[f] = [str(x) for x, e in zip(names, es) if e is None]
    norm = lambda t: sub(py(t))
    found = {f: [t for t in rest if norm(t) == sub(forms[f])] for f in forms}
    for f in forms:
        if len(found[f]) > 1:
            L.violation('two functions of one scope have the same name', '%s: %s' % (what, found[f]))
    L.count('accessors judged', 2)
    for f in ('', 'get_', 'set_'):
        if found[f] and taken[f] is not False:
            L.violation('a property accessor may take the name of a function or a reserved name', '%s: %s is emitted, nothing excludes %s (%s)' % (what, found[f][0], why[f][:3] or 'the clash', {k: v for k, v in path.facts.items() if k.op == 'eq'}))
    # the Python names of the constructor and the callable count as taken, too
    bad = {f: taken[f] is True or ok_(t) is False or any(eq(t, d) is True for d in ('__init__', '__call__')) for f, t in forms.items()}
    if found[''] and found['get_']:
        L.violation('a getter is emitted twice', what)
    elif found['get_'] and not bad['']:
        L.violation('a getter is renamed without need', '%s: %s %s' % (what, found['get_'][0], dict(path.facts)))
    elif not found[''] and not found['get_'] and not (bad[''] and bad['get_']):
        L.violation('a getter is left out without need', '%s: %s %s %s' % (what, emitted, bad, dict(path.facts)))
    if p == 'r':
        if found['set_'] and any(n is not None for n in found['set_']):
            L.violation('a read-only property gets a setter', what)
    elif not found['set_'] and not bad['set_']:
        L.violation('a setter is left out without need', what)


ODD = ['self', 'Self', 'super', 'crate', 'with-dash', '1st', 'a b', 'x!', '\u2603']


def defs(ts):
    """(keyword, name) of every item definition of a stream"""
    out = []

    def go(t):
        for i, x in enumerate(t):
            if isinstance(x, tuple) and x[0] == 'group':
                go(x[2])
            v = x[1] if isinstance(x, tuple) and x[0] == 'id' else x
            if v in ('fn', 'struct', 'mod', 'type', 'trait') and i + 1 < len(t):
                n = t[i + 1]
                n = n[1] if isinstance(n, tuple) and n[0] == 'id' else n
                if isinstance(n, str):
                    out.append((v, n))
    go(ts.t)
    return out


def invalid(rep, P, M, pol):
    """names that are no Rust identifiers, not even raw ones"""
    mgen = fn(P, 'module::Module::generate')
    q = lambda *xs: mk_path(P, list(xs))
    m = lambda *a, **k: module(P, q(*(a or ('m',))), **k)
    ok_item = {'functions': lambda: function(P, q('m', 'good'))}
    kinds = {
        'module': lambda n: m(n), 'module of a package': lambda n: m('a', n), 'submodule': lambda n: m(submodules=[m('m', n), m('m', 'good')]),
        'class': lambda n: m(classes=[klass(P, q('m', n), methods=[function(P, q('m', n, 'f'), 'InstanceMethod', q('m', n))]), klass(P, q('m', 'Good'))]),
        'function': lambda n: m(functions=[function(P, q('m', n)), function(P, q('m', 'good'))]),
        'method': lambda n: m(classes=[klass(P, q('m', 'Good'), methods=[function(P, q('m', 'Good', n), 'InstanceMethod', q('m', 'Good')), function(P, q('m', 'Good', 'good'), 'InstanceMethod', q('m', 'Good'))])]),
        'class property': lambda n: m(classes=[klass(P, q('m', 'Good'), properties=[prop(P, q('m', 'Good', n), 'Class', True), prop(P, q('m', 'Good', 'good'), 'Class', True)])]),
        'module property': lambda n: m(properties=[prop(P, q('m', n), 'Module', True), prop(P, q('m', 'good'), 'Module', True)]),
        'type variable': lambda n: m(type_vars=[typevar(P, q('m', n)), typevar(P, q('m', 'Good'))]),
        'import under the name': lambda n: m(imports=[import_(P, q('m', 'a', 'b'), q('m', n)), import_(P, q('m', 'a', 'good'), q('m', 'good'))]),
        'import of the name': lambda n: m(imports=[import_(P, q('m', 'a', n), q('m', 'x')), import_(P, q('m', 'a', 'good'), q('m', 'good'))]),
    }
    want = {'class': ('struct', 'Good'), 'function': ('fn', 'good'), 'method': ('fn', 'good'), 'class property': ('fn', 'good'), 'module property': ('fn', 'good'), 'type variable': ('type', 'Good')}
    sanit = {'class': 's_', 'function': 'f_', 'method': 'f_'}
    for kind, mk in kinds.items():
        for n in ODD:
            def r(path, mk=mk, n=n):
                top = m(submodules=[m('m', 'a', functions=[function(P, q('m', 'a', x)) for x in ('b', 'good', n)])])
                return Interp(P, path, M).call_body(mgen, [Ref([mk(n)]), Ref([cfg_with(P)]), Slice([top]), Slice([])])

            def j(L, path, o, kind=kind, n=n):
                if o[0] in ('undecided', 'stop'):
                    return
                L.count('obligations')
                L.d['cov']['reach ' + kind] = 1
                if o[0] == 'panic':
                    L.violation('a %s with an invalid name makes the generation panic' % kind, '%r: %s' % (n, o[1]))
                    return
                if 'module' in kind and 'property' not in kind:
                    if not is_err(o):
                        L.violation('a %s with an invalid name is not an error' % kind, repr(n))
                    return
                if not is_ok(o):
                    L.violation('a %s with an invalid name makes the generation fail' % kind, '%r: %s' % (n, o[1]))
                    return
                ds = defs(o[1].f[0])
                ids = {x for t in flat(o[1].f[0]) for x in [t[1] if isinstance(t, tuple) and t[0] == 'id' else t] if isinstance(x, str)}
                for k, d in ds:
                    if not lexes_rs(d):
                        L.violation('an item with an invalid name is emitted', '%s %r: %s %s' % (kind, n, k, d))
                if kind in want and want[kind] not in ds:
                    L.violation('an item is lost because of the invalid name of another', '%s %r: no %s %s' % (kind, n, *want[kind]))
                if 'import' in kind:
                    uses = [x for x in ids if x.endswith('good')]
                    if not uses:
                        L.violation('an item is lost because of the invalid name of another', '%s %r: no import of good' % (kind, n))
                    bad = [x for x in ids if (x == n or x.split('::')[-1] in (n, 'r#' + n)) and x not in ('self', 'super', 'crate')]
                    if bad:
                        L.violation('an item with an invalid name is emitted', '%s %r: %s' % (kind, n, bad))
                L.sample('%s %r -> %s' % (kind, n, ds))
                san = sanit.get(kind)
                if san:
                    k = 'struct' if kind == 'class' else 'fn'
                    exp = san + ''.join(c if c.isalnum() else '_' for c in n)
                    if ident_lexes(exp) and not any(a == k and d not in ('good', 'Good', 'f') for a, d in ds):
                        L.violation('an item whose name can be sanitised is not emitted', '%s %r: %s' % (kind, n, ds))
                if 'property' in kind:
                    for pre in ('get_', 'set_'):
                        if ident_lexes(pre + n) and ('fn', pre + n) not in ds:
                            L.violation('an accessor with a valid name is not emitted', '%s %r: %s' % (kind, n, ds))
            explore_all(rep, kind, r, pol, j, serial=True)
        if not rep.cov.pop('reach ' + kind, 0):
            rep.violation('coverage: no path for a %s with an invalid name' % kind, '')


def lexes_rs(n):
    return ident_lexes(n) or n.startswith('r#') and n[2:] in KW
