"""C10 every callable binding targets the Python object it was made from"""
import ast, builtins, inspect, types
from tree import P_
from calls import *
import parsefn
from checks.c12 import Types, VARARGS, VARKW
from checks.c09 import P_ident, FKS

RECV = ('InstanceMethod', 'Callable')


class ImportPolicy(GenPolicy):
    """the generator may or may not be able to import a prefix of a path"""
    max_steps = 4000000

    def outcomes(self, path, ev):
        return ('ok', 'err') if ev.kind == 'import' else ('ok',)


def scope_path(names):
    return '::'.join(env.rs_name(None, n) for n in names)


def jobs_of(P, T, thorough):
    """every kind of callable x owner paths x signatures that select every way of calling"""
    sigs = {'none': lambda: [], 'pos': lambda: [param(P, mk_ident(P, 'a'), 'PositionalOrKeyword')], 'args': lambda: [VARARGS(P)],
            'kw': lambda: [param(P, mk_ident(P, 'a'), 'PositionalOrKeyword'), param(P, mk_ident(P, 'k'), 'KeywordOnly')], 'kwargs': lambda: [VARARGS(P), VARKW(P)]}
    mods = [['m'], ['a', 'b'], ['a', 'type', 'c']]
    classes = [['C'], ['match']]
    names = ['f', 'fn', 'm', 'C']
    out = []
    for mod in mods:
        if True:
            fs = [(n if i == 0 else '%s_%s' % (n, s), s) for n in names for i, s in enumerate(sigs)]

            def mk(mod=mod, fs=fs):
                return module(P, mk_path(P, mod), functions=[function(P, mk_path(P, mod + [n]), 'Closure' if s == 'pos' else 'Function', None, sigs[s]()) for n, s in fs]), []
            out.append(dict(label='functions of %s' % '.'.join(mod), make=mk, want={(scope_path(mod[-1:]), 'fn', env.rs_name(None, n)): ('call', '.'.join(mod + [n])) for n, s in fs}))
        for cl in classes:
            for s in sigs:
                full = mod + cl

                def mk(mod=mod, cl=cl, s=s, full=full):
                    ms = [function(P, mk_path(P, full + [k + n]), kind, mk_path(P, full), sigs[s]()) for k, kind in (('i_', 'InstanceMethod'), ('s_', 'StaticMethod'), ('c_', 'ClassMethod')) for n in ('f', cl[-1])]
                    ms += [function(P, mk_path(P, full + ['return']), 'InstanceMethod', mk_path(P, full), sigs[s]()), function(P, mk_path(P, full + ['yield']), 'StaticMethod', mk_path(P, full), sigs[s]())]
                    ms += [function(P, mk_path(P, full + ['__init__']), 'Constructor', mk_path(P, full), sigs[s]()), function(P, mk_path(P, full + ['__call__']), 'Callable', mk_path(P, full), sigs[s]())]
                    return module(P, mk_path(P, mod), classes=[klass(P, mk_path(P, full), methods=ms)]), [mk_path(P, full)]
                sc = scope_path(mod[-1:] + cl)
                w = {}
                for n in ('f', cl[-1]):
                    w[(sc, 'trait', 'i_' + n)] = ('method', 'i_' + n)
                    w[(sc, 'impl', 's_' + n)] = ('call', '.'.join(full + ['s_' + n]))
                    w[(sc, 'impl', 'c_' + n)] = ('call', '.'.join(full + ['c_' + n]))
                w[(sc, 'trait', 'r#return')] = ('method', 'return')
                w[(sc, 'impl', 'r#yield')] = ('call', '.'.join(full + ['yield']))
                w[(sc, 'impl', 'new')] = ('construct', '.'.join(full))
                w[(sc, 'trait', 'call')] = ('self', None)
                out.append(dict(label='methods of %s (%s)' % ('.'.join(full), s), make=mk, want=w))
    return out


def callee(o, n):
    """what a call addresses: ('self', attribute names) or (import, attribute names)"""
    t = peel(o) if n is None else S('attr', peel(o), n)
    attrs = []
    while isinstance(t, Sym) and t.op == 'attr' and len(t.args) == 2:
        attrs.insert(0, t.args[1])
        t = peel(t.args[0])
    if t is S('self'):
        return 'self', attrs
    if isinstance(t, Sym) and t.op == 'pymodule' and isinstance(t.args[0], str):
        return t.args[0], attrs
    return None, [str(o), n]


def where_is_method(fname):
    """is this generated fn an associated function"""
    return '<' in fname or fname.rsplit('::', 2)[-2][:1].isupper() or 'r#match' in fname.split('::')[-2]


def judge(L, path, out, exp, where, fname, argtys, imps):
    c = the_call(path)
    if c is None:
        L.violation('a binding does not call its Python object exactly once', '%s: %s' % (where, [e.args for e in path.events if e.kind == 'pycall']))
        return
    o, n, pos, kw, ret = c
    root, attrs = callee(o, n)
    kind, target = exp
    L.count('calls judged')
    L.sample('%s calls %s' % (where, '.'.join([str(root)] + [str(a) for a in attrs])))
    if kind == 'self':
        good = root == 'self' and attrs == []
    elif kind == 'method':
        good = root == 'self' and attrs == [target]
    else:
        good = root not in ('self', None) and '.'.join([root] + attrs) == target
        if good and imps.get(root) == 'err' and len(root.split('.')) > 1:
            L.violation('a binding imports a module that the generator could not import', '%s: %s' % (where, root))
        seg = target.split('.')
        own = seg[:-2] if kind == 'call' and where_is_method(fname) else seg[:-1]
        longer = ['.'.join(seg[:j]) for j in range(len(root.split('.')) + 1, len(own) + 1)] if good else []
        if any(imps.get(x) != 'err' for x in longer):
            L.violation('a binding looks up a package as an attribute although it can be imported', '%s: imports %s, not %s' % (where, root, [x for x in longer if imps.get(x) != 'err'][-1]))
        if good and imps.get(root) is None and root != target.split('.')[0]:
            L.violation('a binding imports a package path that was never checked', '%s: %s' % (where, root))
    if not good:
        L.violation({'self': 'a __call__ binding does not call its receiver', 'method': 'an instance method does not call the attribute of its own name on its receiver',
                     'construct': 'a constructor does not call its class', 'call': 'a function binding does not call the Python function of its own name and owner'}[kind],
                    '%s: calls %s.%s instead of %s' % (where, root, attrs, target or 'self'))
    if not is_result(path, out, ret):
        L.violation('a binding does not return the result of the call', '%s: %s' % (where, out))
    if kind == 'construct':
        ex = [e for e in path.events if e.kind == 'extract' and peel(e.args[0]) is ret]
        me = fname.rsplit('::', 1)[0]
        if len(ex) != 1 or not ex[0].name.startswith('pyo3::instance::Bound<') or not me.split('<')[-1].strip('>').split(' as ')[0] in ex[0].name:
            L.violation('a constructor does not return an instance of its class', '%s: %s' % (where, [e.name for e in ex]))


# ------------------------------------------------------------------ parsed side
class _K:
    def f(self): pass


# how a definition may be stored in its class -> what the callable then is
SPECIMENS = {'function': (_K.__dict__['f'], 'InstanceMethod'), 'lambda': (lambda self: 0, 'InstanceMethod'), 'method descriptor': (dict.__dict__['get'], 'InstanceMethod'), 'slot wrapper': (dict.__dict__['__len__'], 'InstanceMethod'),
             'class method': (classmethod(_K.f), 'ClassMethod'), 'built-in class method': (dict.__dict__['fromkeys'], 'ClassMethod'), 'static method': (staticmethod(_K.f), 'StaticMethod'),
             'built-in static method': (str.__dict__['maketrans'], 'StaticMethod')}
SAFE = {n: getattr(builtins, n) for n in ('isinstance', 'issubclass', 'type', 'classmethod', 'staticmethod', 'property', 'dict', 'str', 'bytes', 'int', 'float', 'list', 'tuple', 'object', 'callable', 'hasattr', 'bool', 'any', 'all', 'True', 'False') if hasattr(builtins, n)}
NODES = (ast.Expression, ast.Call, ast.Name, ast.Attribute, ast.Subscript, ast.Constant, ast.Tuple, ast.List, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.IfExp, ast.Load, ast.Is, ast.IsNot, ast.Eq, ast.NotEq, ast.In, ast.NotIn, ast.And, ast.Or, ast.Not)


def const_eval(txt, env_):
    """value of a Python expression over known objects, or None if it is beyond this evaluator"""
    t = ast.parse(txt.strip(), mode='eval')
    for n in ast.walk(t):
        if not isinstance(n, NODES):
            return None
        if isinstance(n, ast.Name) and n.id not in SAFE and n.id not in env_:
            return None
        if isinstance(n, ast.Attribute) and n.attr not in ('__dict__', '__class__', '__func__', '__name__') and not (isinstance(n.value, ast.Name) and n.value.id in ('types', 'inspect')):
            return None
    return bool(eval(compile(t, 'q', 'eval'), {'__builtins__': {}}, dict(SAFE, **env_)))


def known_class(t):
    """the Python class that a term stands for"""
    t = peel(t)
    if isinstance(t, Sym) and t.op == 'attr' and t.args[0] in (S('pymodule', 'builtins'), S('pymodule', 'types')) and isinstance(t.args[1], str):
        return getattr(builtins if t.args[0].args[0] == 'builtins' else types, t.args[1], None)
    if isinstance(t, Sym) and t.op == 'tup':
        r = tuple(known_class(x) for x in t.args)
        return None if None in r else r
    return None


def tests(path, static):
    """questions about the definition: [(other object asked or None, {specimens that answer as this path did} or None if unknown)]"""
    out = []
    for k, v in path.facts.items():
        if not (isinstance(k, Sym) and isinstance(v, bool)):
            continue
        x = k.args[0] if k.args else None
        if k.op in ('truthy', 'bool') and isinstance(x, Sym) and x.op == 'evalres':
            loc = x.args[-1]
            names = {t.args[0]: t.args[1] for t in parsefn._sub(loc) if t.op == 'tup' and len(t.args) == 2 and isinstance(t.args[0], str)} if isinstance(loc, Sym) else {}
            mine = {n for n, t in names.items() if t in static}
            others = [t for n, t in names.items() if n not in mine and isinstance(t, Sym) and t.op != 'pymodule']
            if not mine:
                out.append((names and list(names.values())[0], None))
                continue
            mods = {n: {'types': types, 'inspect': inspect}[t.args[0]] for n, t in names.items() if isinstance(t, Sym) and t.op == 'pymodule' and t.args[0] in ('types', 'inspect')}
            try:
                good = None if others else {s for s, (o, _) in SPECIMENS.items() if const_eval(x.args[0], dict(mods, **{n: o for n in mine})) is v}
                if good is not None and const_eval(x.args[0], dict(mods, **{n: _K.f for n in mine})) is None:
                    good = None
            except Exception:
                good = None
            out.append((None, good))
        elif static & parsefn._sub(k):
            c = known_class(k.args[1]) if k.op == 'isinstance' and len(k.args) == 2 and k.args[0] in static and isinstance(k.args[1], Sym) else None
            out.append((None, {s for s, (o, _) in SPECIMENS.items() if isinstance(o, c) is v} if c is not None else None))
    return out


def judge_kind(L, P, path, v, what, name, attr='meth'):
    clsnames = ('m', 'Outer', 'C') if what == parsefn.NESTED else parsefn.REPEATED.get(what, ('m', 'C'))
    typ, mk, cp, ps, ret = parsefn.parsed(P, v)
    L.count('kinds judged')
    if cp is not None and tuple(path_names(Interp(P, path, None), cp)) != clsnames:
        L.violation('a method does not keep the path of its class', '%s instead of %s' % (path_names(Interp(P, path, None), cp), clsnames))
    if what in ('Function', 'Closure'):
        if typ != what:
            L.violation('a module-level function is parsed as something else', '%s: %s' % (what, typ))
        return
    if what in ('Constructor', 'Callable'):
        if mk != what:
            L.violation('a constructor or callable is parsed as something else', '%s: %s' % (what, mk))
        return
    if typ != 'Method':
        L.violation('a method is parsed as something else', typ)
        return
    if parsefn.signature_failed(path):
        return
    cls = S('pymodule', clsnames[0])
    for n in clsnames[1:]:
        cls = S('attr', cls, n)
    static = {S('ret', S('pymodule', 'inspect'), 'getattr_static', S('tup', cls, attr)), S('item', S('attr', cls, '__dict__'), attr), S('item', S('attr', cls, '__dict__'), S('pystr', attr))}
    found = [e for e in path.events if (e.kind == 'pycall' and e.args[1] == 'getattr_static' or e.kind == 'getitem')]
    det = bool(found) and found[-1].res == 'ok' and not any(e.kind in ('import', 'getattr') and e.res == 'err' for e in path.events)
    es = parsefn.elements(path)
    selfish = bool(es) and path.facts.get(mk_eq(parsefn.name_of(es[0]), 'self')) is True
    if not det:
        if mk == 'InstanceMethod' and not selfish or mk not in ('InstanceMethod', 'StaticMethod'):
            L.violation('a method whose definition is not found is not judged by its first parameter', '%s, first parameter self: %s' % (mk, selfish))
        elif mk == 'StaticMethod' and selfish:
            L.violation('a method whose definition is not found is not judged by its first parameter', '%s, first parameter self: %s' % (mk, selfish))
        L.count('undetermined kinds judged')
        return
    left = set(SPECIMENS)
    unknown = 0
    for other, good in tests(path, static):
        if other is not None:
            L.violation('the kind of a method is not taken from its definition in its own class', 'a question is asked about %s' % (other,))
            return
        if good is None:
            unknown += 1
        else:
            left &= good
    if unknown:
        k = 'Function::parse %s: a question about the definition of a method is beyond the evaluator' % what
        L.d['und'][k] = L.d['und'].get(k, 0) + 1
        return
    L.count('obligations', len(left))
    for s in sorted(left):
        want = SPECIMENS[s][1]
        if mk != want and not (want == 'InstanceMethod' and mk == 'StaticMethod' and not es):
            L.violation('a %s is parsed as %s' % (s, mk), '%d parameters, first called self: %s' % (len(es), selfish))


def run(rep):
    P = program()
    M = contracts(P)
    T = Types(P)
    thorough = rep.tier != 'quick'
    jobs = jobs_of(P, T, thorough)
    outs = emit(rep, P, M, 'c10', jobs, policy=gen_policy(P, False, kinds=(), base=ImportPolicy))
    W = lower(rep, 'c10', outs, jobs)
    interpret_all(rep, W, jobs, judge, 'generated callables')
    parsefn.explore_parse(rep, P, M, lambda L, path, v, what, name: judge_kind(L, P, path, v, what, name), maxlen=2)
    parsefn.explore_parse(rep, P, M, lambda L, path, v, what, name: judge_kind(L, P, path, v, what, name), maxlen=2 if thorough else 1, cases=parsefn.repeated_cases(P))
    return dict(level='other',
                rule='(generated side) For every kind of callable, owner paths of 1 to 3 segments, names that are Rust keywords or equal the name of their module or class, every way of calling, and every outcome of the imports '
                     'the generator tries: the binding makes exactly one call, of the attribute with its own Python name on its receiver (instance methods), of its receiver (__call__), of its class (constructors), or of the '
                     'object at its full dotted path, starting at the longest prefix that the generator could import; its result (an instance of its class, for constructors) is returned. (parsed side) On every path of '
                     'Function::parse the kind of callable is kept if known, and otherwise decided by what inspect.getattr_static finds under its name in its own class: class method, static method or instance method; '
                     'only if that fails, by the first parameter.',
                assumptions=['contracts in sa/models.py and sa/wmodels.py', 'methods without an introspectable signature are not generated (documented warning)', 'signatures of up to 2 parameters on the parsed side'],
                explanation='Abstract interpretation of the MIR of the generator, of what it generates (through a compile witness) and of the parser.')
