"""C09 every argument of a binding reaches the Python callable in its own channel"""
from tree import P_
from calls import *
import parsefn
from checks.c12 import Types, VARARGS, VARKW, show
import itertools

KWANN = ('Optional', ('PyDict', 'Unknown', 'Unknown'))
POS = ('PositionalOnly', 'PositionalOrKeyword')
KINDS = POS + ('VarPositional', 'KeywordOnly', 'VarKeyword')
FKS = ('Function', 'Closure', 'InstanceMethod', 'ClassMethod', 'StaticMethod', 'Constructor', 'Callable')
KEYS = ['k', 'type', 'self_', 'match']              # Python names of keyword-only parameters, some of them Rust keywords


def shapes():
    for n in itertools.product((0, 1, 2), (0, 1, 2), (0, 1), (0, 1, 2), (0, 1)):
        yield [k for k, c in zip(KINDS, n) for _ in range(c)]


# names of the parameters: ordinary; differing only in case; names that the generated code uses itself; prefixes of each other
STYLES = {'plain': (['a0', 'a1', 'a2', 'a3'], 'args', KEYS, 'kwargs'), 'case': (['x', 'X', 'xX', 'Xx'], 'Args', ['type', 'Type', 'k', 'K'], 'ARGS'),
          'internal': (['py', 'args', 'p_py', 'obj'], 'kwargs', ['p_k', 'k', '__internal__args', '__internal__kwargs'], 'cls'),
          'prefixes': (['r', 'r_', 'r__', 'r_r'], '_', ['a', 'ab', 'p_a', 'a_'], '__')}


def pnames(sh, style='plain'):
    ps, va, ks, vk = STYLES[style]
    ps, ks = iter(ps), iter(ks)
    return [next(ks) if k == 'KeywordOnly' else va if k == 'VarPositional' else vk if k == 'VarKeyword' else next(ps) for k in sh]


def callable_jobs(P, T, fks, shs, ann, chunk=24, style='plain'):
    """modules with one callable per shape"""
    for fk, lo in itertools.product(fks, range(0, len(shs), chunk)):
        part = shs[lo:lo + chunk]

        def mk(fk=fk, part=part):
            ps = lambda sh: [param(P, P_ident(P, n), k, ann=T.mk(('PyTuple', 'Unknown') if k == 'VarPositional' else KWANN if k == 'VarKeyword' else ann)) for n, k in zip(pnames(sh, style), sh)]
            if fk in ('Function', 'Closure'):
                return module(P, P_(P, 'm'), functions=[function(P, P_(P, 'm.f%d' % i), fk, None, ps(s), T.mk(ann)) for i, s in enumerate(part)]), [P_(P, 'm.D')]
            nm = {'Constructor': '__init__', 'Callable': '__call__'}.get(fk)
            cl = [P_(P, 'm.C%d' % i) for i in range(len(part))] if nm else [P_(P, 'm.C')]
            if nm:
                return module(P, P_(P, 'm'), classes=[klass(P, P_(P, 'm.C%d' % i), methods=[function(P, P_(P, 'm.C%d.%s' % (i, nm)), fk, P_(P, 'm.C%d' % i), ps(s), T.mk(ann))]) for i, s in enumerate(part)]), cl
            return module(P, P_(P, 'm'), classes=[klass(P, P_(P, 'm.C'), methods=[function(P, P_(P, 'm.C.f%d' % i), fk, P_(P, 'm.C'), ps(s), T.mk(ann)) for i, s in enumerate(part)])]), cl
        key = {'Function': lambda i: ('m', 'fn', 'f%d' % i), 'Closure': lambda i: ('m', 'fn', 'f%d' % i), 'InstanceMethod': lambda i: ('m::C', 'trait', 'f%d' % i),
               'Constructor': lambda i: ('m::C%d' % i, 'impl', 'new'), 'Callable': lambda i: ('m::C%d' % i, 'trait', 'call')}.get(fk, lambda i: ('m::C', 'impl', 'f%d' % i))
        yield dict(label='%s with parameters %s%s' % (fk, show(ann), '' if style == 'plain' else ', names: ' + style), make=mk, want={key(i): (fk, s, ann, style) for i, s in enumerate(part)})


def P_ident(P, n):
    return mk_ident(P, env.rs_name(None, n))


def judge(L, path, out, exp, where, fname, argtys, imps):
    fk, sh, ann, style = exp
    what = '%s(%s)' % (where, ', '.join(sh))
    rs = [t for t in argtys if not t.startswith('pyo3::marker::Python')]
    if fk in ('InstanceMethod', 'Callable'):
        rs = rs[1:]
    if len(rs) != len(sh):
        L.violation('a binding does not take one Rust parameter per Python parameter', '%s: %d parameters' % (what, len(rs)))
        return
    c = the_call(path)
    if c is None:
        L.violation('a binding does not call its Python object exactly once', '%s: %s' % (what, [e.args for e in path.events if e.kind == 'pycall']))
        return
    o, n, pos, kw, ret = c
    if not is_result(path, out, ret):
        L.violation('a binding does not return the result of the call', '%s: %s' % (what, out))
    arg = [S('arg', fname, i) for i in range(len(sh))]
    want = [arg[i] for i, k in enumerate(sh) if k in POS]
    got = positional(path, pos)
    star = [arg[i] for i, k in enumerate(sh) if k == 'VarPositional']
    flat = []
    for x in want:
        flat.append(x)
    for s in star:
        items = path.memo.get(('pylist', s))
        flat += [('*', s)] if items is None else list(items)
    conv = [x if isinstance(x, tuple) else unconvert(x) for x in got]
    conv = [('*', unconvert(x[1])) if isinstance(x, tuple) else x for x in conv]
    conv = [arg_none(path, x, flat[i:i + 1]) for i, x in enumerate(conv)]
    if not kw_ok(path, sh, arg, kw, style):
        base, sets = keywords(path, kw)
        L.violation('the keyword arguments of a binding are not exactly those of its parameters', '%s: %s %s' % (what, base, sets))
    if conv != flat:
        L.violation('the positional arguments of a binding are not exactly those of its parameters, in order', '%s: %s instead of %s' % (what, conv, flat))
    L.count('calls judged')
    L.sample('%s -> %s.%s(%s, **%s)' % (what, o, n, got, kw))


def arg_none(path, x, arg):
    """None stands for the argument that is None on this path"""
    if isinstance(x, Sym) and x.op == 'v' and x.args[1] == 'Some':
        return x.args[0]
    if isinstance(x, Sym) and x.op == 'adt' and x.args[0] == 'Option' and len(x.args) == 2:
        c = [a for a in arg if isinstance(a, Sym) and path.facts.get(S('variant', a)) == 'None']
        return c[0] if len(c) == 1 else x
    return x


def kw_ok(path, sh, arg, kw, style='plain'):
    base, sets = keywords(path, kw)
    names = pnames(sh, style)
    want = {names[i]: arg[i] for i, k in enumerate(sh) if k == 'KeywordOnly'}
    if {k: arg_none(path, unconvert(v), [want.get(k)]) for k, v in sets.items()} != want:
        return False
    vk = [arg[i] for i, k in enumerate(sh) if k == 'VarKeyword']
    if not vk:
        return base is None
    v = unconvert(base) if base is not None else None
    some_ = S('v', vk[0], 'Some', 0)
    if v in (some_, vk[0]):
        return True
    return v is None and path.facts.get(S('variant', vk[0])) == 'None'


def run(rep):
    P = program()
    M = contracts(P)
    T = Types(P)
    thorough = rep.tier != 'quick'
    shs = list(shapes())
    jobs = []
    for ann in ('Unknown', 'PyLong'):
        jobs += list(callable_jobs(P, T, FKS, shs, ann))
    full = [['PositionalOnly', 'PositionalOrKeyword', 'VarPositional', 'KeywordOnly', 'VarKeyword'], ['PositionalOrKeyword', 'KeywordOnly']]
    for d in T.all(False) if thorough else [d for d in T.all(False) if isinstance(d, str) or d[0] != 'PyFunction' and all(x in ('PyAny', 'PyLong', 'PyString', 'Unknown') for x in d[1:])]:
        jobs += list(callable_jobs(P, T, ('Function',) if not thorough else ('Function', 'InstanceMethod'), full, d))
    for d in (('Optional', ('PyDict', 'PyString', 'PyAny')), ('Optional', ('PyDict', ('PyList', 'PyLong'), 'PyLong')), ('Optional', ('PyDict', 'PyString', 'PyLong')), ('PyTuple',) + ('PyLong',) * 13, 
              ('Optional', ('PyList', 'PyAny')), ('Optional', ('PyTuple',)), ('PyDict', 'PyString', ('PyList', 'PyAny'))):
        jobs += list(callable_jobs(P, T, ('Function', 'InstanceMethod'), full + [['PositionalOrKeyword']], d))
    wide = [list(s) for s in ([POS[0]] * 2 + [POS[1]] * 2 + ['VarPositional'] + ['KeywordOnly'] * 4 + ['VarKeyword'], [POS[1]] * 4 + ['KeywordOnly'] * 4, [POS[1]] * 4, ['VarPositional'] + ['KeywordOnly'] * 2, ['KeywordOnly'] * 4 + ['VarKeyword'])]
    for style in STYLES:
        jobs += list(callable_jobs(P, T, FKS, wide, 'Unknown', style=style))
    outs = emit(rep, P, M, 'c09', jobs)
    W = lower(rep, 'c09', outs, jobs)
    interpret_all(rep, W, jobs, judge, 'generated callables')
    parsefn.explore_parse(rep, P, M, lambda L, path, v, what, name: parsefn.judge_params(L, P, path, v, what, None), maxlen=2 if not thorough else 3)
    return dict(level='other',
                rule='(generated side) For every shape of a parameter list (0-2 of each repeatable kind, every subset of kinds; longer lists whose names differ only in case, are prefixes of each other, or are names that generated code uses itself) and every kind of callable, and for the listed types in a full parameter list, the '
                     'binding that Module::generate emits is compiled to MIR and interpreted over symbolic arguments: on every path on which all Python operations succeed there is exactly one call, whose positional '
                     'values are the arguments of the positional parameters in order followed by the elements of *args, whose keywords are exactly the keyword-only arguments under their Python names on top of a copy of '
                     '**kwargs (empty if None), and whose extracted result is returned; a failing operation is an error. (parsed side) On every path of Function::parse over a symbolic signature, the parsed parameters '
                     'have the kinds, order, names and annotations of the signature, without the receiver exactly for instance methods, constructors and callables whose first parameter is positional.',
                assumptions=['contracts in sa/models.py and sa/wmodels.py: conversions keep the value (C20), inspect.signature lists the parameters', 'signatures of up to %d parameters, *args of up to 2 elements' % (2 if not thorough else 3),
                             'a parameter called self that is no receiver makes the binding take *args and **kwargs (documented)', 'keywords given in **kwargs differ from the keyword-only parameters'],
                explanation='Abstract interpretation of the MIR of the generator, of the MIR of what it generates (through a compile witness) and of the MIR of the parser; arguments, annotations, names and outcomes of Python operations are symbolic.')
