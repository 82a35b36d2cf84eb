"""C08 Python is always addressed by Python names, Rust by Rust names"""
import itertools
from tree import *
from gencg import *
from checks.c16 import subs_summary

# keywords of Rust that can be raw identifiers (all of them are legal names in Python unless noted)
KW = ('abstract as async await become box break const continue do dyn else enum extern false final fn for if impl in let loop macro match mod move mut override priv pub ref return '
      'static struct trait true try type typeof unsafe unsized use virtual where while yield').split()
SPECIAL = ['self', 'super', 'crate', 'Self']            # keywords that cannot be raw identifiers
PLAIN = ['name', 'x', '_private', '__init__', 'X9', 'r', 'r_', 'rfn', 'types', 'union', 'auto', 'macro_rules', 'raw', 'default', 'caf\u00e9', 'isSuper', 'fnord', 'self_']
MARK = 'zzq'


def raw(n):
    return 'r#' + n if n in KW or n in SPECIAL else n


class BothPolicy(GenPolicy):
    bad = ()

    def outcomes(self, path, ev):
        return ('err',) if ev.kind == 'import' and ev.args and ev.args[0] in self.bad else ('ok',)


def deep_idents(P, I, v, seen):
    """strings of every name (Ident) within a value"""
    v = I.deref(v)
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, Adt):
        if v.p == env.ident_of(P):
            yield I.deref(v.f[0])
            return
        for x in v.f:
            yield from deep_idents(P, I, x, seen)
    elif isinstance(v, Lst):
        for x in v.items or ():
            yield from deep_idents(P, I, x, seen)
    elif isinstance(v, Tup):
        for x in v.f:
            yield from deep_idents(P, I, x, seen)
    elif isinstance(v, Box_):
        yield from deep_idents(P, I, v.v if hasattr(v, 'v') else v.cell[0], seen)
    elif isinstance(v, HMap):
        for x in list(v.keys) + [x for x in v.vals if x is not None]:
            yield from deep_idents(P, I, x, seen)


def has_rs(t):
    if isinstance(t, str):
        return t.startswith('r#') or '.r#' in t
    if isinstance(t, Sym):
        return t.op == 'rs' or any(has_rs(x) for x in t.args)
    if isinstance(t, (list, tuple)):
        return any(has_rs(x) for x in t)
    return False


PYKINDS = {'import', 'getattr', 'hasattr', 'setattr', 'getitem', 'eval', 'from_code', 'pycall', 'mapget', 'setitem', 'dir', 'isinstance', 'subclass'}


def names(rep, P, M):
    """the name types themselves, for every keyword and a range of ordinary names, and for an arbitrary name"""
    I_ = env.ident_of(P)
    f = {k: fn(P, 'ident::Ident::' + k) for k in ('from_py', 'as_py', 'as_rs', 'into_rs', 'from_rs')}
    text = lambda I, v: v if isinstance(v, (str, Sym)) else models.sv(I, v)
    allnames = KW + SPECIAL + PLAIN

    def each(what, run, judge):
        def j(L, path, o):
            L.count('obligations')
            if o[0] == 'ret':
                L.d['cov']['reach'] = L.d['cov'].get('reach', 0) + 1
                judge(L, path, o[1])
            elif o[0] == 'panic':
                L.violation(what + ' panics', str(o[1]))
        n = rep.cov.get('reach', 0)
        explore_all(rep, what, run, GenPolicy(), j, serial=True)
        if rep.cov.get('reach', 0) == n:
            rep.violation('coverage: no path of %s completes' % what, '')

    def one(path, n, contracts=True):
        I = Interp(P, path, M)
        i = I.call_body(f['from_py'], [n])
        return [text(I, I.call_body(f['as_rs'], [Ref([i])])), text(I, I.call_body(f['as_py'], [Ref([i])])),
                text(I, I.call_body(f['into_rs'], [models.clone(I, i)])), text(I, I.call_body(f['as_py'], [Ref([I.call_body(f['from_rs'], [text(I, I.call_body(f['as_rs'], [Ref([i])]))])])]))]
    for n in allnames:
        def j(L, path, v, n=n):
            if v[0] != raw(n) or v[2] != raw(n):
                L.violation('the Rust spelling of a name is wrong', 'Python %r is spelled %r (as_rs), %r (into_rs) in Rust, not %r' % (n, v[0], v[2], raw(n)))
            if v[1] != n or v[3] != n:
                L.violation('a name does not survive escaping and reading back', 'Python %r is read back as %r (%r after from_rs)' % (n, v[1], v[3]))
        each('Ident of a name', lambda path, n=n: one(path, n), j)
    # paths of such names
    pf = {k: fn(P, 'path::Path::' + k) for k in ('from_py', 'to_py', 'to_rs', 'from_rs', 'into_rs')}
    segs = ['name', 'match', 'super', '_x', 'type']
    cases = [c for k in (1, 2, 3) for c in itertools.product(segs, repeat=k)] + [(k,) for k in KW + PLAIN] + [('a', k, 'b') for k in KW + PLAIN] + [('a', k) for k in KW + PLAIN]

    def path_(path, c):
        I = Interp(P, path, M)
        p = I.call_body(pf['from_py'], ['.'.join(c)])
        rs = text(I, I.call_body(pf['to_rs'], [Ref([p])]))
        back = text(I, I.call_body(pf['to_py'], [Ref([I.call_body(pf['from_rs'], [rs])])]))
        return [text(I, I.call_body(pf['to_py'], [Ref([p])])), rs, text(I, I.call_body(pf['into_rs'], [models.clone(I, p)])), back]
    for c in cases:
        def j(L, path, v, c=c):
            if v[0] != '.'.join(c) or v[3] != '.'.join(c):
                L.violation('a dotted name does not survive escaping and reading back', '%s is read back as %s (%s after from_rs)' % ('.'.join(c), v[0], v[3]))
            if v[1] != '::'.join(map(raw, c)) or v[2] != '::'.join(map(raw, c)):
                L.violation('the Rust spelling of a dotted name is wrong', '%s is spelled %s' % ('.'.join(c), v[1]))
        each('Path of a dotted name', lambda path, c=c: path_(path, c), j)
    # an arbitrary name: decided by whether it lexes as an identifier
    M0 = env.install(P, contracts=False)

    def sym(path):
        I = Interp(P, path, M0)
        n = S('anyname')
        i = I.call_body(f['from_py'], [n])
        return [I, n, text(I, I.call_body(f['as_rs'], [Ref([i])])), text(I, I.call_body(f['as_py'], [Ref([i])]))]

    def js(L, path, v):
        I, n, rs, py = v
        k = path.val(n)
        if isinstance(k, str):
            if rs not in (raw(k), n) or (rs is n and raw(k) != k):
                L.violation('the Rust spelling of a name is wrong', 'Python %r is spelled %r' % (k, rs))
            return
        if rs is n:
            if path.known(S('valid_ident', n)) is not True and any(path.known_eq(n, x) is None for x in KW):
                L.violation('a name that may be a Rust keyword is not escaped', 'nothing on the path excludes that the name is `%s`' % [x for x in KW if path.known_eq(n, x) is None][0])
            return
        if str(rs).replace('str(anyname)', 'anyname') != str(cat('r#', n)):
            L.violation('the Rust spelling of a name is wrong', 'an arbitrary name is spelled %s' % (rs,))
        elif str(py).replace('str(anyname)', 'anyname') != 'anyname':
            L.violation('a name does not survive escaping and reading back', 'an arbitrary name is read back as %s' % (py,))
        if path.known(S('valid_ident', n)) is True:
            L.violation('a name that needs no escaping is escaped', str(rs))
    each('Ident of an arbitrary name', sym, js)


def parse_side(rep, P, M):
    """names given to Python while introspecting, and names recorded in the parsed items; every name is symbolic"""
    subs = {'class::Class::parse': summary_parser(P, 'class::Class', 'Class')(''),
            'function::Function::parse': summary_parser(P, 'function::Function', 'Function')(''),
            'property::Property::parse': summary_parser(P, 'property::Property', 'Property')(''),
            'module::Module::parse': module_summary(P), TYPE_FROM: type_summary, 'format_docstring': fmtdoc}
    flat_ = {TYPE_FROM: type_summary, 'format_docstring': fmtdoc}
    mpath = lambda: mk_path(P, [S('nm', 'm'), S('nm', 'x')])
    cfg = lambda **k: cfg_with(P, **k)
    own = lambda k: enum(P, 'PropertyOwner', k)

    class Pol(ParsePolicy):
        imports = 'ok'

        def outcomes(self, path, ev):
            return (self.imports if ev.kind == 'import' and not isinstance(ev.args[0], str) else 'ok',)

        def segments(self, path, s):
            return self.seg
    todo = [('Module::parse', 'module::Module::parse', lambda: [Ref([cfg(generate_preludes=False)]), Ref([S('mod')])], subs),
            ('Module::parse', 'module::Module::parse', lambda: [Ref([cfg(traverse_submodules=False)]), Ref([S('mod')])], subs),
            ('Module::parse', 'module::Module::parse', lambda: [Ref([cfg(generate_preludes=False)]), Ref([S('mod')])], {**subs, 'imports': 'err'}),
            ('Module::empty', 'module::Module::empty', lambda: [S('py'), mpath()], subs),
            ('Class::parse', 'class::Class::parse', lambda: [Ref([cfg()]), Ref([S('cls')]), mpath()], subs),
            ('Property::parse', 'property::Property::parse', lambda: [Ref([cfg()]), Ref([S('prop')]), mpath(), own('Class')], flat_),
            ('Property::parse', 'property::Property::parse', lambda: [Ref([cfg()]), Ref([S('prop')]), mpath(), own('Module')], flat_)]
    todo += [('Function::parse', 'function::Function::parse', lambda k=k: [Ref([cfg()]), Ref([S('fun')]), mpath(), ftype(P, k, mk_path(P, [S('nm', 'm'), S('nm', 'a'), S('nm', 'C')]))], flat_)
             for k in ('Function', 'InstanceMethod', 'Unknown')]
    todo += [('Module::extract_submodules', 'module::Module::extract_submodules', lambda: [Ref([cfg()]), Ref([S('mod')])], subs),
             ('Module::extract_prelude', 'module::Module::extract_prelude', lambda: [Ref([cfg()]), Ref([S('mod')]), Ref([mpath()])], subs)]
    for what, name, args, opaque in todo:
        try:
            body = fn(P, name)
        except Missing:
            if 'extract' in name:
                continue            # a private helper: its code is analysed wherever it is called from
            raise
        pol = Pol()
        pol.opaque_names = {k: v for k, v in opaque.items() if k != 'imports'}
        pol.imports = opaque.get('imports', 'ok')
        pol.seg = (1, 2) if rep.tier != 'quick' or what != 'Module::parse' else (1,)

        def r(path, body=body, args=args):
            I = Interp(P, path, M)
            return [I, I.call_body(body, args())]

        def j(L, path, o, what=what):
            if o[0] != 'ret':
                return
            L.count('obligations')
            I, v = o[1]
            for e in path.events:
                if e.kind in PYKINDS:
                    L.count('names given to Python')
                    if has_rs([I.freeze(a) if not isinstance(a, (str, Sym)) else a for a in e.args]):
                        L.violation('%s addresses Python by a Rust-spelled name' % what, '%s%s' % (e.kind, e.args))
            if isinstance(v, Adt) and v.v == 0:
                L.d['cov']['reach ' + what] = 1
                for s in deep_idents(P, I, v, set()):
                    L.count('recorded names')
                    if isinstance(s, str):
                        if s != raw(s[2:] if s.startswith('r#') else s) and s not in ('self', 'super', 'crate'):
                            L.violation('%s records a name that is not escaped' % what, s)
                    elif s.op != 'rs':
                        if s.op in ('item', 'f'):
                            continue        # made by a summarised parser
                        L.violation('%s records a Python name as a Rust identifier' % what, str(s))
                    elif has_rs(s.args[0]):
                        L.violation('%s escapes a name twice' % what, str(s))
        explore_all(rep, what, r, pol, j, budget_s=60 if rep.tier == 'quick' else 200)
        if not rep.cov.pop('reach ' + what, 0):
            rep.violation('coverage: no path of %s completes' % what, '')


def items(P):
    """a module with an item whose name is n in each role"""
    q = lambda *xs: mk_path(P, list(xs))
    u = lambda nm, k='PositionalOrKeyword', t='Unknown': param(P, mk_ident(P, raw(nm)), k, ann=enum(P, 'typing::Type', t))
    other = lambda t: enum(P, 'typing::Type', 'Other', t)
    MK = ('InstanceMethod', 'ClassMethod', 'StaticMethod')

    def Q(*xs):
        return q(*[raw(x) for x in xs])
    m = lambda *nm, **k: module(P, Q(*(nm or ('m',))), doc='docs', **k)
    R = {}
    R['function'] = lambda n: m(functions=[function(P, Q('m', n), 'Function', None, [u('x'), u('y', 'KeywordOnly')])])
    R['function without arguments'] = lambda n: m(functions=[function(P, Q('m', n))])
    R['closure'] = lambda n: m(functions=[function(P, Q('m', n), 'Closure', None, [u('x')])])
    for k in ('PositionalOnly', 'PositionalOrKeyword', 'KeywordOnly'):
        R['%s parameter' % k] = lambda n, k=k: m(functions=[function(P, Q('m', 'f'), 'Function', None, [u(n, k), u('last', 'KeywordOnly')])])
        R['%s parameter of a method' % k] = lambda n, k=k: m(classes=[klass(P, Q('m', 'C'), methods=[function(P, Q('m', 'C', 'f%d' % i), mk, Q('m', 'C'), [u(n, k)]) for i, mk in enumerate(MK)] + [function(P, Q('m', 'C', '__init__'), 'Constructor', Q('m', 'C'), [u(n, k)])])])
    R['class'] = lambda n: m(classes=[klass(P, Q('m', n), doc='docs', methods=[function(P, Q('m', n, 'f%d' % i), mk, Q('m', n), [u('x')]) for i, mk in enumerate(MK)] + [function(P, Q('m', n, '__init__'), 'Constructor', Q('m', n), [u('x')]),
                                        function(P, Q('m', n, '__call__'), 'Callable', Q('m', n), [u('x')])], properties=[prop(P, Q('m', n, 'p'))])])
    for mk in MK:
        R[mk] = lambda n, mk=mk: m(classes=[klass(P, Q('m', 'C'), methods=[function(P, Q('m', 'C', n), mk, Q('m', 'C'), [u('x'), u('k', 'KeywordOnly')])])])
    R['class property'] = lambda n: m(classes=[klass(P, Q('m', 'C'), properties=[prop(P, Q('m', 'C', n), 'Class', True)])])
    R['module property'] = lambda n: m(properties=[prop(P, Q('m', n), 'Module', True)])
    R['property beside a method of its name'] = lambda n: m(classes=[klass(P, Q('m', 'C'), methods=[function(P, Q('m', 'C', n), 'InstanceMethod', Q('m', 'C'), [])], properties=[prop(P, Q('m', 'C', n), 'Class', True)])])
    R['type variable'] = lambda n: m(type_vars=[typevar(P, Q('m', n))])
    R['submodule'] = lambda n: m(submodules=[module(P, Q('m', n), doc='docs', source='pass', classes=[klass(P, Q('m', n, 'C'), methods=[function(P, Q('m', n, 'C', '__init__'), 'Constructor', Q('m', n, 'C'), [])])],
                                                    functions=[function(P, Q('m', n, 'f'), 'Function', None, [u('x')], other('m.%s.C' % n))], properties=[prop(P, Q('m', n, 'p'), 'Module')])],
                                 functions=[function(P, Q('m', 'g'), 'Function', None, [param(P, mk_ident(P, 'x'), 'PositionalOrKeyword', ann=other('m.%s.C' % n))], other('m.C'))])
    R['top-level module'] = lambda n: m(n, source='pass', classes=[klass(P, Q(n, 'C'), properties=[prop(P, Q(n, 'C', 'p'))], methods=[function(P, Q(n, 'C', '__init__'), 'Constructor', Q(n, 'C'), [])])], functions=[function(P, Q(n, 'f'))], properties=[prop(P, Q(n, 'p'), 'Module')])
    R['module within a package'] = lambda n: m('a', n, 'b', source='pass', classes=[klass(P, Q('a', n, 'b', 'C'), properties=[prop(P, Q('a', n, 'b', 'C', 'p'))], methods=[function(P, Q('a', n, 'b', 'C', '__init__'), 'Constructor', Q('a', n, 'b', 'C'), [])])],
                                               functions=[function(P, Q('a', n, 'b', 'f'))], properties=[prop(P, Q('a', n, 'b', 'p'), 'Module')])
    R['re-export of an item'] = lambda n: m(imports=[import_(P, Q('m', 'sub', n), Q('m', 'y')), import_(P, Q('m', 'sub', 'z'), Q('m', n + '2'))])
    R['re-export under a name'] = lambda n: m(imports=[import_(P, Q('m', 'sub', 'y'), Q('m', n))])
    R['re-export under its own name'] = lambda n: m(imports=[import_(P, Q('m', 'sub', n), Q('m', n))])
    R['re-export from a module'] = lambda n: m(imports=[import_(P, Q('m', n, 'y'), Q('m', 'y'))])
    R['prelude'] = lambda n: prelude_module(P, m, raw(n))
    return R


def prelude_module(P, m, n):
    x = m(functions=[function(P, mk_path(P, ['m', y])) for y in ('a', n)])
    i = fields(P, 'module::Module').index('prelude')
    x.f[i] = Lst([mk_ident(P, 'a'), mk_ident(P, n)])
    return x


def toks(ts):
    """(kind, text, within a doc attribute) of every token of a stream"""
    out = []

    def go(t, doc):
        prev = None
        for x in t:
            if isinstance(x, tuple) and x[0] == 'group':
                d = doc or (x[1] == 'k' and bool(x[2]) and x[2][0] in ('doc', ('id', 'doc')))
                out.append(('open', x[1], d))
                go(x[2], d)
                out.append(('close', x[1], d))
            elif isinstance(x, tuple):
                out.append((x[0], x[1] if isinstance(x[1], str) else str(x[1]), doc))
            else:
                out.append(('str', x, doc))
    go(ts.t, False)
    return out


def emitted(rep, P, M):
    kws = KW if rep.tier != 'quick' else ['match', 'type', 'struct', 'async', 'fn', 'mod', 'yield', 'dyn']
    body = fn(P, 'module::Module::generate')
    R = items(P)
    cases = [(role, n, ok_) for role in R for n in [MARK] + kws if not (n == 'type' and 'beside' in role) for ok_ in ((True, False) if 'module' in role else (True,))]
    allt = lambda n: [P_(P, 'm.C'), mk_path(P, ['m', raw(n), 'C'])]

    def top(n):
        """the module tree that the re-exported items are looked up in"""
        c = lambda *xs: klass(P, mk_path(P, [raw(x) for x in xs]))
        m = lambda *xs, **k: module(P, mk_path(P, [raw(x) for x in xs]), **k)
        return m('m', submodules=[m('m', 'sub', classes=[c('m', 'sub', x) for x in (n, 'y', 'z')]), m('m', n, classes=[c('m', n, 'y')])])

    def r(path):
        i = path.split(tuple(range(len(cases))), 'case')
        path.memo['case'] = i
        role, n, imp = cases[i]
        path.memo['imp'] = imp
        return Interp(P, path, M).call_body(body, [Ref([R[role](n)]), Ref([cfg_with(P)]), Slice([top(n)]), Slice(allt(n))])

    class Pol(type(gen_policy(P, False, kinds=()))):
        max_steps = 4000000

        def outcomes(self, path, ev):
            return ('ok',) if ev.kind != 'import' or path.memo['imp'] else ('err',)

    def j(L, path, o):
        i = path.memo.get('case')
        role, n, imp = cases[i]
        if o[0] in ('undecided', 'stop'):
            return
        L.count('obligations')
        if not is_ok(o):
            L.violation('the bindings of a %s whose name is a Rust keyword are an error' % role, '%s: %s' % (n, o[1]))
            return
        evs = [(e.kind, [str(a) for a in e.args]) for e in path.events if e.kind in PYKINDS]
        L.d.setdefault('out', []).append((cases[i], (toks(o[1].f[0]), evs)))
    explore_all(rep, "Module::generate", r, Pol(), j, budget_s=200)
    got = {}
    for c, v in rep.out:
        got.setdefault(c, []).append(v)
    rep.out[:] = []
    for role, n, imp in cases:
        if n == MARK:
            continue
        base, kw = got.get((role, MARK, imp)), got.get((role, n, imp))
        if not base or not kw or len(base) != 1 or len(kw) != 1:
            rep.violation('coverage: %s named %s' % (role, n), 'no unique output: %s %s' % (base and len(base), kw and len(kw)))
            continue
        if MARK not in str(base[0][0]):
            rep.violation('coverage: a %s leaves no trace of its name in the output' % role, '')
        d = compare(base[0][0], kw[0][0], n)
        rep.count('generated items compared')
        if d:
            rep.violation('a %s whose name is a Rust keyword is not generated like one with an ordinary name' % role, '%s: %s' % (n, d))
        if [(k, [a.replace(MARK, n) for a in x]) for k, x in base[0][1]] != kw[0][1]:
            rep.violation('generating a %s addresses Python by a Rust-spelled name' % role, '%s: %s' % (n, [x for x in kw[0][1]][:4]))
    if MARK not in str(got.get(('function', MARK, True), '')):
        rep.violation('coverage: the marked name does not reach the output', '')


def compare(a, b, n):
    """first difference between the tokens for the marked name and those for the keyword, up to the spelling rule"""
    for x, y in itertools.zip_longest(a, b):
        if x is None or y is None:
            return 'the output differs in length at %s' % ((x or y)[:2],)
        if x[0] != y[0]:
            return '%s became %s' % (x[:2], y[:2])
        s, t = x[1], y[1]
        if not isinstance(s, str) or MARK not in s:
            if s != t:
                return '`%s` became `%s`' % (s, t)
            continue
        if x[2]:
            if t.replace('r#', '') != s.replace(MARK, n).replace('r#', ''):
                return 'the documentation %r became %r' % (s, t)
        elif x[0] == 'lit':
            if t != s.replace(MARK, n):
                return 'the string %r became %r' % (s, t)
        else:
            ss, tt = s.split('::'), t.split('::')
            for u, v in itertools.zip_longest(ss, tt):
                if u == MARK and v == raw(n):
                    continue
                w = (u or '').replace(MARK, n)
                if u is None or v is None or (v != w and v != 'r#' + w) or (v == w and w in KW):
                    return 'the identifier `%s` became `%s`' % (s, t)
    return None


def requests(rep, P, M):
    """names given to Codegen reach Python and the module tree as they are"""
    new, mod = fn(P, 'Codegen::new'), fn(P, 'Codegen::module_name')
    gen = fn(P, 'Codegen::generate')
    pol = tree_policy(P)
    pol.opaque_names = dict(pol.opaque_names)
    pol.opaque_names['module::Module::parse'] = subs_summary(P, {})
    for k in KW + ['self', 'super', 'crate']:
        for req in (k, 'p.' + k, 'p.%s.q' % k, k + '.p'):
            def r(path, req=req):
                I = Interp(P, path, M)
                cg = I.call_body(new, [cfg_with(P)])
                cg = cg.f[0] if cg.p == RESULT else cg
                cg = I.call_body(mod, [cg, req])
                if cg.v != 0:
                    return cg
                return I.call_body(gen, [cg.f[0]])

            def j(L, path, o, req=req):
                if o[0] in ('undecided', 'stop'):
                    return
                L.count('obligations')
                pre = req.split('.')
                okn = {'.'.join(pre[:i + 1]) for i in range(len(pre))}
                for e in path.events:
                    if e.kind == 'import':
                        L.count('names given to Python')
                        if e.args[0] not in okn and e.args[0] not in ('sys', 'io', 'os', 'builtins', 'inspect', 'types', 'typing', 'pkgutil', 'importlib'):
                            L.violation('a requested module is imported under another name', '%s: import %s' % (req, e.args[0]))
                if is_ok(o):
                    L.d['cov']['requests generated'] = L.d['cov'].get('requests generated', 0) + 1
                    if not any(e.kind == 'import' and e.args[0] == req for e in path.events):
                        L.violation('a requested module is imported under another name', '%s is never imported' % req)
                    ns = [n.name for x in roots_of(path) for n in x.walk()]
                    if req not in ns or any(n not in okn for n in ns):
                        L.violation('a requested module is recorded under another name', '%s: %s' % (req, ns))
            explore_all(rep, 'request of a module', r, pol, j, serial=True)
    # modules that generated modules depend on
    for path_ in (['match', 'x'], ['a', 'type', 'c'], ['fn'], ['a', 'b', 'dyn'], ['mod', 'use', 'if', 'in']):
        def mk(path_=path_):
            rs = [raw(x) for x in path_]
            return [module(P, P_(P, 'm'), imports=[import_(P, mk_path(P, rs), mk_path(P, ['m', rs[-1]]), 'ExternalImport')])]

        def r(path, mk=mk):
            return Interp(P, path, M).call_body(gen, [codegen_value(P, cfg_with(P, generate_dependencies=True), mk(), None)])

        def j(L, path, o, path_=path_):
            if o[0] in ('undecided', 'stop'):
                return
            L.count('obligations')
            pre = {'.'.join(path_[:i + 1]) for i in range(len(path_))} | set(path_)
            for e in path.events:
                if e.kind in ('import', 'getattr', 'hasattr') and has_rs([x for x in e.args if isinstance(x, (str, Sym))]):
                    L.violation('a dependency is addressed by a Rust-spelled name', '%s: %s%s' % ('.'.join(path_), e.kind, e.args))
            if any(e.kind == 'import' and e.args[0] in pre for e in path.events):
                L.d['cov']['dependencies searched'] = L.d['cov'].get('dependencies searched', 0) + 1
        explore_all(rep, 'dependencies', r, tree_policy(P), j, serial=True)
    if not rep.cov.get('dependencies searched'):
        rep.violation('coverage: no dependency is searched for', '')
    if not rep.cov.get('requests generated'):
        rep.violation('coverage: no request generated', '')


def run(rep):
    P = program()
    M = contracts(P)
    names(rep, P, M)
    parse_side(rep, P, M)
    emitted(rep, P, M)
    requests(rep, P, M)
    return dict(level='other',
                rule='(1) Ident::{from_py, as_py, as_rs, into_rs, from_rs} and Path::{from_py, to_py, to_rs, into_rs, from_rs}, interpreted on every raw-able Rust keyword, on ordinary names and on an arbitrary name: '
                     'the Rust spelling is the name itself or r#name for keywords, and reading back yields the name. (2) On every abstract path of the parsers, with symbolic names, no argument of an operation on Python '
                     'contains an escaped name and every recorded name is an escaped Python name. (3) For every role an item name plays, the tokens (and the Python operations) for a keyword equal those for an '
                     'ordinary name with literals carrying the Python name and identifiers its raw spelling. (4) A requested module name reaches import and the module tree unchanged.',
                assumptions=['Python names contain neither `#` nor `::`', 'names that cannot be raw identifiers (self, super, crate, Self) are the subject of C18', 'a property named `type` beside a method of that name is the subject of C18 (get_type is reserved)'],
                explanation='The name types are decided for all names, every use of them by abstract interpretation of the parsers and by comparing generated token streams.')
