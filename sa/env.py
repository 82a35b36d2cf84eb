"""Contracts of the engine's own name type (decided separately by C08) and of CPython facts, used by all analyses."""
import re
from core import *
from interp import *
import models, models2
from models import M, model, sv, mk_known, ListIt

IDENT_P, PATH_P = None, None


def ident_of(prog):
    for p in prog.adts:
        if p.endswith('::ident::Ident'):
            return p


def path_of(prog):
    for p in prog.adts:
        if p.endswith('::common::path::Path'):
            return p


def py_name(s):
    """Python spelling of a Rust-spelled string term"""
    if isinstance(s, Sym):
        if s.op == 'rs':
            return s.args[0]
        return None
    return s[2:] if s.startswith('r#') else s


def rs_name(I, n):
    """Rust spelling of a Python name term: concrete when the name is"""
    if isinstance(n, str):
        return n if ident_lexes(n) else 'r#' + n
    v = I.path.val(n)
    if isinstance(v, str):
        return rs_name(I, v)
    return S('rs', n)


def install(prog, contracts=True):
    """local contracts for Ident on symbolic names; concrete names run the real code"""
    pre = 'syntax::common::ident::Ident::'

    def from_py(I, a, ref, rt):
        s = sv(I, a[0])
        b = I.P.byname.get(I.P.crate + '::' + pre + 'from_py')
        if isinstance(s, str):
            return I.call_body(b, [s])
        return Adt(ident_of(I.P), 0, [S('rs', s)])

    def as_py(I, a, ref, rt):
        i = I.deref(a[0])
        s = i.f[0] if isinstance(i, Adt) else S('f', i, 0) if isinstance(i, Sym) else i
        if isinstance(s, Sym) and s.op == 'rs':
            return s.args[0]
        if isinstance(s, Sym) and s.op == 'f':
            return S('py', s)
        b = I.P.byname.get(I.P.crate + '::' + pre + 'as_py')
        return I.call_body(b, [a[0]])
    m = dict(M)
    if contracts:
        m['local:' + pre + 'from_py'] = from_py
        m['local:' + pre + 'as_py'] = as_py
        pp = 'syntax::common::path::Path::'

        def path_from_py(I, a, ref, rt):
            s = sv(I, a[0])
            b = I.P.byname.get(I.P.crate + '::' + pp + 'from_py')
            if isinstance(s, str):
                return I.call_body(b, [s])
            key = ('pathsegs', s)
            segs = I.path.memo.get(key)
            if segs is None:
                v = I.path.val(s)
                parts = pieces(s)
                if parts is not None:
                    # what lies below a module: the segments of the module's name, then the names below it
                    segs = list(models.list_of(I, I.deref(path_from_py(I, [parts[0]], ref, rt)).f[1]))
                    segs = [x.f[0] for x in segs] + [rs_name(I, x) for x in parts[1:]]
                elif isinstance(v, str):
                    segs = [S('rs', x) if False else rs_name(I, x) for x in v.split('.') if x]
                else:
                    ns = tuple(I.policy.segments(I.path, s)) if hasattr(I.policy, 'segments') else (1,)
                    if I.path.known_eq(s, '') is False or (isinstance(s, Sym) and s.op == 'cat' and any(isinstance(x, str) for x in s.args)):
                        ns = tuple(n for n in ns if n) or (1,)
                    n = I.path.split(ns, 'segments of %r' % (s,))
                    I.path.log.append(('len', s, n))
                    if n == 0:
                        I.path.assume(mk_eq(s, ''), True)
                        segs = []
                    elif n == 1:
                        segs = [S('rs', s)]
                        if I.path.known_eq(s, '') is None:
                            I.path.record(mk_eq(s, ''), False)
                        I.path.record(S('contains', s, '.'), False)
                    else:
                        segs = [S('rs', S('pyseg', s, i, n)) for i in range(n)]
                        if I.path.known_eq(s, '') is None:
                            I.path.record(mk_eq(s, ''), False)
                I.path.memo[key] = segs
            idt = ident_of(I.P)
            return Adt(path_of(I.P), 0, [False, Lst([Adt(idt, 0, [x]) for x in segs])])
        m['local:' + pp + 'from_py'] = path_from_py

        def to_py(I, a, ref, rt):
            p = I.deref(a[0])
            if isinstance(p, Adt) and isinstance(p.f[1], (Lst, Sym)):
                xs = [I.deref(x) for x in models.list_of(I, p.f[1])]
                ss = [x.f[0] if isinstance(x, Adt) else S('f', x, 0) for x in xs]
                if any(isinstance(s, Sym) for s in ss):
                    out = []
                    for s in ss:
                        n = py_name(s)
                        out.append(S('py', s) if n is None else '' if s == 'super' else n)
                    return dotted(out)
            return I.call_body(I.P.byname[I.P.crate + '::' + pp + 'to_py'], [a[0]])
        m['local:' + pp + 'to_py'] = to_py
    return m


def pieces(s):
    """the name of a module and the names below it that a dotted text consists of"""
    if not (isinstance(s, Sym) and s.op == 'cat' and isinstance(s.args[0], Sym) and s.args[0].op == 'modname'):
        return None
    out = [[s.args[0]]]
    for x in s.args[1:]:
        if isinstance(x, str):
            first, *more = x.split('.')
            if first:
                out[-1].append(first)
            out += [[y] if y else [] for y in more]
        else:
            out[-1].append(x)
    if any(len(x) != 1 or isinstance(x[0], str) and not x[0].isidentifier() for x in out):
        return None
    return [x[0] for x in out]


def dotted(names):
    """the dotted Python path of name terms; the pieces of one dotted name rejoin to that name"""
    out, i = [], 0
    while i < len(names):
        n = names[i]
        if isinstance(n, Sym) and n.op == 'pyseg' and n.args[1] == 0:
            s, _, k = n.args
            if [x for x in names[i:i + k]] == [S('pyseg', s, j, k) for j in range(k)]:
                out.append(s)
                i += k
                continue
        out.append(n)
        i += 1
    r = []
    for j, x in enumerate(out):
        if j:
            r.append('.')
        r.append(x)
    return cat(*r)


TYPE_OF = {'PyModule': 'module', 'PyType': 'type'}


class EnginePolicy(Policy):
    """what every analysis of the parse side shares"""
    def segments(self, path, s):
        if isinstance(s, Sym) and s.op == 'modname':
            return (1, 2)
        return (0, 1, 2)

    def module_name(self, path, o):
        """the `__name__` of a module object: a submodule is called what it is imported as (C22 looks at the others)"""
        if o.op == 'pymodule' and isinstance(o.args[0], Sym) and o.args[0].op == 'cat':
            return o.args[0]
        if o.op == 'attr' and isinstance(o.args[0], Sym) and not o.args[0].args:
            return cat(S('modname', o.args[0]), '.', o.args[1])
        return None

    def theory(self, path, t):
        op, a = t.op, t.args
        if op == 'prefix' and a[1] == 'r#':
            return False
        if op == 'eq':
            for x, y in (a, a[::-1]):
                if isinstance(x, Sym) and y == '' and isinstance(y, str):
                    if x.op in ('modname', 'pyseg', 'tname') or (x.op == 'str' and isinstance(x.args[0], Sym) and x.args[0].op == 'pyel'):
                        return False     # Python names are not empty
        if op == 'subclass' or op == 'isinstance':
            # module, type, builtin function types are disjoint
            for T in ('PyModule', 'PyType', 'PyCFunction'):
                if a[1] != T and isinstance(a[1], str) and path.facts.get(S(op, a[0], T)) is True:
                    return False
            if op == 'isinstance' and isinstance(a[0], Sym):
                v = path.facts.get(S('subclass', S('typeof', a[0]), a[1]))
                if v is not None:
                    return v
                if isinstance(a[0], Sym) and a[0].op == 'pymodule' and a[1] == 'PyModule':
                    return True
        if op == 'valid_ident' and isinstance(a[0], Sym) and a[0].op == 'rs' and isinstance(a[0].args[0], Sym) and a[0].args[0].op == 'cat':
            # an identifier with characters of identifiers put before it is an identifier, and no raw one is needed
            pre, x = a[0].args[0].args[0], a[0].args[0].args[1:]
            if isinstance(pre, str) and re.fullmatch(r'[A-Za-z_][A-Za-z0-9_]*_', pre) and len(x) == 1 and path.facts.get(S('valid_ident', S('rs', x[0]))) is True:
                return True
        return None
