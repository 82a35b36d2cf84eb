"""C13 each Python type maps to its Rust counterpart, however it is spelled"""
import itertools, re
from tree import P_
from calls import *
import parsefn
from checks.c12 import Types, show, TY

# ------------------------------------------------------------------ oracle: Python types and how they are spelled
LEAF = {'bool': 'PyBool', 'bytearray': 'PyByteArray', 'bytes': 'PyBytes', 'float': 'PyFloat', 'int': 'PyLong', 'str': 'PyString', 'complex': 'PyComplex', 'slice': 'PySlice',
        'Any': 'PyAny', 'None': 'PyNone', 'NoneType': 'PyNone', 'ipaddress.IPv4Address': 'IpV4Addr', 'ipaddress.IPv6Address': 'IpV6Addr', 'os.PathLike': 'Path', 'pathlib.Path': 'Path',
        'datetime.date': 'PyDate', 'datetime.datetime': 'PyDateTime', 'datetime.time': 'PyTime', 'datetime.tzinfo': 'PyTzInfo', 'timedelta': 'PyDelta',
        'Ellipsis': 'PyEllipsis', '...': 'PyEllipsis', 'module': 'PyModule', 'code': 'PyCode', 'frame': 'PyFrame', 'super': 'PySuper', 'traceback': 'PyTraceback',
        'capsule': 'PyCapsule', 'cfunction': 'PyCFunction', 'typing.Any': 'PyAny', "<class 'NoneType'>": 'PyNone', "<class 'pathlib.Path'>": 'Path', "<class 'ipaddress.IPv4Address'>": 'IpV4Addr',
        "<class 'ipaddress.IPv6Address'>": 'IpV6Addr', "<class 'os.PathLike'>": 'Path',
        'dict': ('PyDict', 'Unknown', 'Unknown'), 'Dict': ('PyDict', 'Unknown', 'Unknown'), 'Mapping': ('PyDict', 'Unknown', 'Unknown'), 'collections.abc.Mapping': ('PyDict', 'Unknown', 'Unknown'),
        "<class 'collections.abc.Mapping'>": ('PyDict', 'Unknown', 'Unknown'), "<class 'collections.abc.Sequence'>": ('PyList', 'Unknown'), "<class 'collections.abc.Iterable'>": ('PyList', 'Unknown'),
        "<class 'collections.abc.Iterator'>": ('PyList', 'Unknown'),
        'list': ('PyList', 'Unknown'), 'Sequence': ('PyList', 'Unknown'), 'Iterable': ('PyList', 'Unknown'), 'Iterator': ('PyList', 'Unknown'), 'tuple': ('PyTuple', 'Unknown')}
CALLABLE = ('function', 'Callable', 'callable', 'typing.Callable', "<class 'collections.abc.Callable'>", "<class 'function'>")
GENERIC = ('vp.Thing', 'Thing', 'vp.sub.Thing[int]', 'T', '~T', "ForwardRef('int')", 'intx', 'xint', 'List', 'boolean', 'datetime', "'int'", '()', 'my.int', 'strange', 'None_', 'typing.Thing', 'collections.Thing',
           'collections.abc.Thing', 'listing[int]', 'list[int', 'dict_items', 'x.datetime.date')
ONE = {'list': 'PyList', 'set': 'PySet', 'frozenset': 'PyFrozenSet', 'Sequence': 'PyList', 'Iterable': 'PyList', 'Iterator': 'PyList', 'collections.abc.Sequence': 'PyList', 'collections.abc.Iterable': 'PyList',
       'collections.abc.Iterator': 'PyList', 'typing.Sequence': 'PyList', 'typing.Iterable': 'PyList', 'typing.Iterator': 'PyList'}
# supported classes: pyo3 type they are, and the pyo3 types that are their base classes
CLASSES = {'PyBool': ('PyLong',), 'PyByteArray': (), 'PyBytes': (), 'PyFloat': (), 'PyLong': (), 'PyString': (), 'PyDict': (), 'PyFrozenSet': (), 'PyList': (), 'PySet': (), 'PyTuple': (), 'PySlice': (),
           'PyComplex': (), 'PyDateTime': ('PyDate',), 'PyDate': (), 'PyDelta': (), 'PyTime': (), 'PyTzInfo': (), 'PyCapsule': (), 'PyCFunction': (), 'PyCode': (), 'PyFrame': (), 'PyFunction': (), 'PyModule': (),
           'PySuper': (), 'PyTraceback': (), 'PyType': ()}
CONTAINER = {'PyDict': ('PyDict', 'Unknown', 'Unknown'), 'PyFrozenSet': ('PyFrozenSet', 'Unknown'), 'PyList': ('PyList', 'Unknown'), 'PySet': ('PySet', 'Unknown'), 'PyTuple': ('PyTuple', 'Unknown')}


def desc(P, v):
    """nested description of a Type value"""
    if isinstance(v, Box_):
        return desc(P, v.f[0])
    if isinstance(v, Ref):
        return desc(P, v.get())
    if isinstance(v, Sym):
        return v
    n = parsefn.vname(P, v)
    if n == 'Other':
        return ('Other', v.f[0])
    out = []
    for x in v.f:
        x2 = x
        if isinstance(x2, (Lst, Slice)):
            out += [desc(P, y) for y in (x2.items if isinstance(x2, Lst) else x2.list())]
        else:
            out.append(desc(P, x2))
    if n == 'PyFunction':
        names = P.adts[v.p]['v'][v.v]['f']
        d = dict(zip(names, v.f))
        ps = d['param_types']
        return ('PyFunction', *[desc(P, y) for y in (ps.items if isinstance(ps, Lst) else ps.list())], desc(P, d['return_annotation']))
    if n == 'PyDict':
        names = P.adts[v.p]['v'][v.v]['f']
        d = dict(zip(names, v.f))
        return ('PyDict', desc(P, d['key_type']), desc(P, d['value_type']))
    return (n, *out) if v.f else n


def generic(d):
    """a type that is written as the generic Python object unless an item of that name is known"""
    return d in ('PyAny', 'Unknown') or isinstance(d, tuple) and d[0] == 'Other'


def same(got, want):
    if want == 'generic':
        return generic(got)
    if want == 'callable':
        return isinstance(got, tuple) and got[0] == 'PyFunction'
    if isinstance(want, tuple) and isinstance(got, tuple):
        if want[0] == 'callable':
            return got[0] == 'PyFunction' and same(got[-1], want[1])
        return got[0] == want[0] and len(got) == len(want) and all(same(a, b) for a, b in zip(got[1:], want[1:]))
    if want in ('PyAny', 'Unknown') and got in ('PyAny', 'Unknown'):
        return True
    if want in ('PyNone',) and got == want:
        return True
    return got == want


def spellings(thorough):
    """[(annotation text, expected type)]"""
    out = list(LEAF.items()) + [(g, 'generic') for g in GENERIC] + [(c, 'callable') for c in CALLABLE] + [('Union', ('Union', 'Unknown')), ('typing.Union', ('Union', 'Unknown'))]
    out += [("<enum 'Color'>", 'generic'), ("<class 'vp.Thing'>", 'generic'), ('', 'PyNone'), ('type[int]', 'PyType'), ('type[vp.Thing]', 'PyType')]
    atoms = [('int', 'PyLong'), ('str', 'PyString'), ('vp.Thing', 'generic'), ('datetime.datetime', 'PyDateTime')]
    d1 = []

    def wrap(xs, ys):
        r = []
        for (s, t) in xs:
            for c in ('list', 'set', 'frozenset', 'Sequence'):
                r.append(('%s[%s]' % (c, s), (ONE[c], t)))
            r.append((s + ' | None', ('Optional', t)) if not is_union(t) else None)
            r.append(('None | ' + s, ('Optional', t)) if not is_union(t) else None)
            r.append(('tuple[%s]' % s, ('PyTuple', t)))
            r.append(('tuple[%s, ...]' % s, ('PyTuple', t, 'PyEllipsis')))
            r.append(('Callable[[], %s]' % s, ('callable', t)))
            r.append(('Callable[..., %s]' % s, ('callable', t)))
            r.append(('type[%s]' % s, 'PyType'))
        for (s, t), (s2, t2) in itertools.product(xs, ys):
            r.append(('dict[%s, %s]' % (s, s2), ('PyDict', t, t2)))
            r.append(('tuple[%s, %s]' % (s, s2), ('PyTuple', t, t2)))
            r.append(('Callable[[%s], %s]' % (s, s2), ('callable', t2)))
            if not is_union(t) and not is_union(t2):
                r.append(('%s | %s' % (s, s2), ('Union', t, t2)))
                r.append(('%s | None | %s' % (s, s2), ('Union', t, 'PyNone', t2)))
        return [x for x in r if x]

    def is_union(t):
        return isinstance(t, tuple) and t[0] in ('Union', 'Optional')
    for c, n in ONE.items():
        out.append(('%s[int]' % c, (n, 'PyLong')))
        out.append(('%s[vp.Thing]' % c, (n, 'generic')))
    d1 = wrap(atoms, atoms)
    out += d1
    few = [x for x in d1 if x[0] in ('list[int]', 'dict[str, int]', 'int | None', 'tuple[int, str]', 'tuple[int, ...]', 'Callable[[int], str]', 'int | str')]
    d2 = wrap(few, few + atoms[:1]) + wrap(atoms[:1], few)
    out += d2
    # sequences of three and four members with nested brackets
    for xs in itertools.product([('int', 'PyLong'), ('dict[str, int]', ('PyDict', 'PyString', 'PyLong')), ('tuple[int, str, bytes]', ('PyTuple', 'PyLong', 'PyString', 'PyBytes')),
                                 ('dict[str, dict[str, int]]', ('PyDict', 'PyString', ('PyDict', 'PyString', 'PyLong')))], repeat=3):
        out.append(('tuple[%s]' % ', '.join(x[0] for x in xs), ('PyTuple', *[x[1] for x in xs])))
        if thorough:
            for y in (('int', 'PyLong'), ('tuple[int, str, bytes]', ('PyTuple', 'PyLong', 'PyString', 'PyBytes')), ('list[int | None]', ('PyList', ('Optional', 'PyLong')))):
                out.append(('tuple[%s]' % ', '.join(x[0] for x in xs + (y,)), ('PyTuple', *[x[1] for x in xs + (y,)])))
    if thorough:
        d2b = [x for x in d2 if len(x[0]) < 40][::3]
        out += wrap(d2b, atoms[:2])
    seen, r = set(), []
    for s, t in out:
        if s not in seen:
            seen.add(s)
            r.append((s, t))
    return r


# ------------------------------------------------------------------ Python objects
class Pol(parsefn.FnPolicy):
    max_steps = 6000000
    summaries = {}
    cls = None

    def theory(self, path, t):
        if t.op == 'subclass' and 'class' in path.memo:
            n = t.args[1].rsplit('::', 1)[-1]
            x = path.memo['class']
            return n == x or n in CLASSES.get(x, ())
        if t.op == 'isinstance' and 'object' in path.memo:
            n = t.args[1].rsplit('::', 1)[-1]
            return {'PyType': 'class', 'PyString': 'text'}.get(n) == path.memo['object']
        return super().theory(path, t)

    def outcomes(self, path, ev):
        if ev.kind == 'getattr' and ev.args[1] in ('__origin__', '__args__') or ev.kind in ('downcast', 'cast'):
            return ('ok', 'err')
        return ('ok',)

    def lengths(self, path, o):
        return (0, 1, 2, 3)

    def opaque(self, I, name, body, args):
        if not I.frames:
            return None
        for tail, h in self.summaries.items():
            if name.endswith(tail):
                return h
        return None


def analyse(rep, P, M, name, body, args, judge, summaries=None, before=None):
    pol = Pol()
    pol.summaries = summaries or {}

    def r(path):
        if before:
            before(path)
        return Interp(P, path, M).call_body(body, args(path))

    def j(L, path, o):
        if o[0] in ('undecided', 'stop'):
            return
        L.count('obligations')
        if o[0] == 'panic':
            L.violation('the type mapping panics', '%s: %s' % (name, o[1]))
        else:
            L.d['cov']['reach'] = 1
            judge(L, path, o)
    explore_all(rep, name, r, pol, j)
    if not rep.cov.pop('reach', 0):
        rep.violation('coverage: no path through ' + name, '')


def run(rep):
    P = program()
    M = contracts(P)
    T = Types(P)
    thorough = rep.tier != 'quick'
    A = "TryFrom<pyo3::instance::Bound<'_, pyo3::types::%s>> for pyo3_bindgen_engine::typing::Type>::try_from"
    f_any, f_type = fn(P, A % 'any::PyAny'), fn(P, A % 'typeobject::PyType')
    f_typing = named_any(P, 'from_typing')
    f_str = named_any(P, 'typing::Type>::from_str')

    # --- texts
    table = spellings(thorough)

    def texts(path):
        path.memo['text'] = path.split(tuple(range(len(table))), 'text')

    def jt(L, path, o):
        s, want = table[path.memo['text']]
        if not is_ok(o):
            L.violation('an annotation text is rejected', '%r: %s' % (s, o[1]))
            return
        got = desc(P, o[1].f[0])
        L.count('annotation texts judged')
        if not same(got, want):
            L.violation('an annotation text maps to another type', '%r: %s instead of %s' % (s, got, want))
    analyse(rep, P, M, 'Type::from_str', f_str, lambda path: [table[path.memo['text']][0]], jt, before=texts)

    # --- an arbitrary text: what is not recognised is kept as the name of an unknown type
    def ju(L, path, o):
        ann = S('ann')
        if not is_ok(o):
            return
        d = desc(P, o[1].f[0])
        eqs = [k for k, v in path.facts.items() if isinstance(k, Sym) and k.op == 'eq' and v is True and ann in k.args]
        hits = [k for k, v in path.facts.items() if isinstance(k, Sym) and v is True and k.op in ('prefix', 'suffix', 'eq')]
        if eqs:
            c = [x for x in eqs[0].args if isinstance(x, str)]
            known = dict(table).get(c[0]) if c else None
            L.count('recognised texts')
            if known is not None and not same(d, known):
                L.violation('an annotation text maps to another type', '%r: %s instead of %s' % (c[0], d, known))
            elif known is None and not generic(d) and c and c[0] not in dict(table):
                L.violation('an annotation text that names no supported type is mapped to one', '%r: %s' % (c[0], d))
        elif not hits and not generic(d):
            if not (isinstance(d, tuple) and d[0] in ('Union', 'Optional')):
                L.violation('an unrecognised annotation text is mapped to a type', '%s' % (d,))
        if not hits and isinstance(d, tuple) and d[0] == 'Other' and d[1] is not ann:
            L.violation('an unrecognised annotation text does not keep its name', '%s' % (d,))
    analyse(rep, P, M, 'Type::from_str of any text', f_str, lambda path: [S('ann')], ju, summaries={'::from_str': lambda I, a, ref, rt: ok(S('typeofstr', models.sv(I, a[0]))), 'repair_complex_sequence': lambda I, a, ref, rt: UNIT})

    # --- classes
    names = list(CLASSES) + ['other']

    def classes(path):
        path.memo['class'] = path.split(tuple(names), 'class')

    def jc(L, path, o):
        x = path.memo['class']
        if not is_ok(o):
            return
        d = desc(P, o[1].f[0])
        L.count('classes judged')
        if x == 'other':
            good = isinstance(d, Sym) and d.op == 'typeofstr' and d.args[0] is S('str', S('cls'))
        elif x == 'PyFunction':
            good = same(d, 'callable')
        else:
            good = same(d, CONTAINER.get(x, x))
        if not good:
            L.violation('a class maps to another type', '%s: %s' % (x, d))
    analyse(rep, P, M, 'Type::try_from(class)', f_type, lambda path: [S('cls')], jc, summaries={'::from_str': lambda I, a, ref, rt: ok(S('typeofstr', models.sv(I, a[0])))}, before=classes)

    # --- objects
    kinds = ['none', 'class', 'text', 'typing', 'other']

    def objects(path):
        path.memo['object'] = path.split(tuple(kinds), 'object')
        path.assume(S('isnone', S('ann')), path.memo['object'] == 'none')
        path.assume(mk_eq(S('str', S('attr', S('typeof', S('ann')), '__module__')), 'typing'), path.memo['object'] == 'typing')

    def jo(L, path, o):
        x = path.memo['object']
        if not is_ok(o):
            return
        d = desc(P, o[1].f[0])
        L.count('kinds of annotations judged')
        good = {'none': lambda: d in ('Unknown', 'PyNone', 'PyAny'), 'class': lambda: d is S('oftype', S('ann')), 'typing': lambda: d is S('oftyping', S('ann')),
                'text': lambda: isinstance(d, Sym) and d.op == 'typeofstr' and d.args[0] in (S('ann'), S('pystr', S('ann')), S('str', S('ann'))),
                'other': lambda: d is S('typeofstr', S('str', S('ann')))}[x]()
        if not good:
            L.violation('an annotation is read in the wrong way', '%s: %s' % (x, d))
    analyse(rep, P, M, 'Type::try_from(object)', f_any, lambda path: [S('ann')], jo, before=objects, summaries={
        '::from_str': lambda I, a, ref, rt: ok(S('typeofstr', models.sv(I, a[0]))), A % 'typeobject::PyType': lambda I, a, ref, rt: ok(S('oftype', models.pobj(I, a[0]))),
        'from_typing': lambda I, a, ref, rt: ok(S('oftyping', models.pobj(I, a[0])))})

    # --- typing constructs
    origins = ['PyLong', 'PyString', 'PyAny', 'PyType', ('Other', 'vp.Thing'), ('Union', 'Unknown'), ('Optional', 'PyLong'), ('PyDict', 'Unknown', 'Unknown'), ('PyList', 'Unknown'), ('PySet', 'Unknown'),
               ('PyFrozenSet', 'Unknown'), ('PyTuple', 'Unknown'), ('PyFunction', 'PyEllipsis', 'Unknown'), ('PyList', 'PyLong'), ('PyDict', 'PyString', 'PyLong'), ('Union', 'PyLong', 'PyString')]

    def ty(I, a, ref, rt):
        o = models.pobj(I, a[0])
        if o is S('attr', S('ann'), '__origin__'):
            k = I.path.split(tuple(range(len(origins))), ('origin',))
            I.path.memo['origin'] = k
            return ok(T.mk(origins[k]))
        k = I.path.memo.get(('inner', o))
        if k is None:
            k = I.path.split(('none', 'other'), ('inner', o))
            I.path.memo[('inner', o)] = k
            I.path.memo.setdefault('inners', []).append(o)
        return ok(T.mk('PyNone') if k == 'none' else T.mk(('Other', 'inner%d' % I.path.memo['inners'].index(o))))

    def jy(L, path, o):
        if not is_ok(o):
            return
        d = desc(P, o[1].f[0])
        res = {e.args[1]: e.res for e in path.events if e.kind == 'getattr' and e.args[0] is S('ann')}
        if res.get('__origin__') != 'ok':
            if d is not S('typeofstr', S('str', S('ann'))):
                L.violation('a typing construct without an origin is not read as text', str(d))
            L.count('typing constructs judged')
            return
        org = origins[path.memo['origin']]
        meta = [v for k, v in path.facts.items() if isinstance(k, Sym) and k.op == 'hasattr' and k.args[1] == '__metadata__']
        L.count('typing constructs judged')
        if meta == [True]:
            if not same(d, org):
                L.violation('an annotated type is not that type', '%s: %s' % (org, d))
            return
        if res.get('__args__') != 'ok' or any(e.kind in ('cast', 'downcast') and e.res == 'err' for e in path.events):
            if not same(d, org):
                L.violation('a typing construct without inner types is not its origin', '%s: %s' % (org, d))
            return
        lst = [v for k, v in path.memo.items() if isinstance(k, tuple) and k[0] == 'pylist' and S('attr', S('ann'), '__args__') in parsefn._sub(k[1])]
        if not lst or lst[0] is None:
            return
        inn = ['PyNone' if path.memo.get(('inner', e)) == 'none' else ('Other', 'inner%d' % i) for i, e in enumerate(lst[0])]
        nth = lambda i: inn[i] if i < len(inn) else 'Unknown'
        k = org if isinstance(org, str) else org[0]
        if not meta and k in ('PyList', 'PyDict', 'PySet', 'PyFrozenSet', 'PyTuple', 'Optional', 'Union', 'PyFunction'):
            L.violation('an annotated type is not told apart from a generic one', '%s' % (org,))
            return
        if k == 'Union':
            want = ('Optional', inn[1] if inn[0] == 'PyNone' else inn[0]) if len(inn) == 2 and 'PyNone' in inn else ('Union', *inn)
        elif k in ('Optional', 'PyList', 'PySet', 'PyFrozenSet'):
            want = (k, nth(0))
        elif k == 'PyDict':
            want = (k, nth(0), nth(1))
        elif k == 'PyTuple':
            want = (k, *inn)
        elif k == 'PyFunction':
            want = ('callable', inn[-1] if inn else 'Unknown')
        else:
            want = org
        if not same(d, want):
            L.violation('a typing construct maps to another type', '%s of %s: %s' % (org, inn, d))
    analyse(rep, P, M, 'Type::from_typing', f_typing, lambda path: [S('ann')], jy, before=lambda path: path.assume(mk_eq(S('str', S('attr', S('typeof', S('ann')), '__module__')), 'typing'), True), summaries={
        'typing::Type>::try_from': ty, '::from_str': lambda I, a, ref, rt: ok(S('typeofstr', models.sv(I, a[0])))})

    rust_side(rep, P, M, T, thorough)
    return dict(level='other',
                rule='(texts) For every annotation text of a grammar of the supported spellings (all names, every container, unions, nested up to depth 3, tuples of up to 4 nested members, look-alikes that are not supported), '
                     'Type::from_str yields exactly the type that the text denotes in Python; a text of unknown content that matches no test keeps its name as an unknown type. (classes) For every supported class, with '
                     'its base classes, Type::try_from yields its own type and not that of a base class; any other class is read as its text. (objects) None, classes, typing constructs, texts and other objects are each '
                     'read by their own rule. (typing constructs) For every origin and 0 to 3 inner types: the inner types take the place of the type arguments, a union of one type and None is optional, an annotated '
                     'type is the type itself, anything without origin is read as text. (Rust side) Every type, alone and within every container, becomes the one Rust type of the table in sa/checks/c13.py, for results and '
                     'for parameters, as resolved by the compiler.',
                assumptions=['contracts in sa/models.py', 'the table of Python types and their Rust counterparts in sa/checks/c13.py', 'texts are the repr of Python annotations: names without brackets or commas inside quotes',
                             'classes derived from a supported type map as that type'],
                explanation='Abstract interpretation of the MIR of Type::{from_str, try_from, from_typing} with symbolic Python objects; compiler-resolved signatures of generated functions for the Rust side.')


def named_any(P, tail):
    c = [b for b in P.bodies.values() if b['name'].endswith(tail) and '{closure' not in b['name']]
    if len(c) != 1:
        raise Missing(tail)
    return c[0]


# ------------------------------------------------------------------ Rust side
BOUND = lambda x: "pyo3::instance::Bound<'_, pyo3::types::%s>" % x
NATIVE = {'PySlice': 'slice::PySlice', 'PyComplex': 'complex::PyComplex', 'PyDate': 'datetime::PyDate', 'PyDateTime': 'datetime::PyDateTime', 'PyTime': 'datetime::PyTime', 'PyTzInfo': 'datetime::PyTzInfo',
          'PyCapsule': 'capsule::PyCapsule', 'PyCFunction': 'function::PyCFunction', 'PyCode': 'code::PyCode', 'PyFrame': 'frame::PyFrame', 'PyModule': 'module::PyModule', 'PySuper': 'pysuper::PySuper',
          'PyTraceback': 'traceback::PyTraceback', 'PyType': 'typeobject::PyType'}
ANY, DICT, TUPLE = BOUND('any::PyAny'), BOUND('dict::PyDict'), BOUND('tuple::PyTuple')
HASHABLE = ('PyBool', 'IpV4Addr', 'IpV6Addr', 'Path', 'PyLong', 'PyString')
SIMPLE = {'PyBool': ('bool', 'bool'), 'PyFloat': ('f64', 'f64'), 'PyLong': ('i64', 'i64'), 'PyString': ('alloc::string::String', '&str'), 'PyBytes': ('alloc::vec::Vec<u8>', '&[u8]'), 'PyByteArray': ('alloc::vec::Vec<u8>', '&[u8]'),
          'IpV4Addr': ('core::net::ip_addr::IpAddr', 'core::net::ip_addr::Ipv4Addr'), 'IpV6Addr': ('core::net::ip_addr::IpAddr', 'core::net::ip_addr::Ipv6Addr'), 'Path': ('std::path::PathBuf', '&std::path::Path')}


def rust(d, cls):
    """(type of a value that comes from Python, type of a parameter); 'any', 'dict', 'tuple' stand for anything that converts into one"""
    n, *xs = (d,) if isinstance(d, str) else d
    own = lambda x: rust(x, cls)[0]
    if n in SIMPLE:
        return SIMPLE[n]
    if n in NATIVE:
        return BOUND(NATIVE[n]), '&' + BOUND(NATIVE[n])
    if n == 'Optional':
        return ('core::option::Option<%s>' % own(xs[0]),) * 2
    if n == 'PyDict':
        if xs[0] in HASHABLE and 'PyAny' not in own(xs[1]):
            t = 'HashMap<%s, %s>' % (own(xs[0]), own(xs[1]))
            return t, '&' + t
        return DICT, 'dict'
    if n in ('PySet', 'PyFrozenSet'):
        if xs[0] in HASHABLE:
            t = 'HashSet<%s>' % own(xs[0])
            return t, '&' + t
        t = BOUND({'PySet': 'set::PySet', 'PyFrozenSet': 'frozenset::PyFrozenSet'}[n])
        return t, '&' + t
    if n == 'PyList' or n == 'PyTuple' and len(xs) == 2 and xs[1] == 'PyEllipsis':
        return 'alloc::vec::Vec<%s>' % own(xs[0]), '&[%s]' % own(xs[0])
    if n == 'PyTuple':
        if not 2 <= len(xs) <= 12:
            return TUPLE, 'tuple'
        return ('(%s)' % ', '.join(own(x) for x in xs),) * 2
    if n == 'PyFunction':
        return BOUND('function::PyFunction'), '&' + BOUND('function::PyFunction')
    if n == 'Other' and xs[0].split('[')[0] == 'm.C':
        return "pyo3::instance::Bound<'_, %s>" % cls, "&pyo3::instance::Bound<'_, %s>" % cls
    return ANY, 'any'


def norm(t):
    t = t.replace(' ', '').replace('::<', '<')
    return re.sub(r'std::collections::hash::(map::HashMap|set::HashSet)', lambda m: m[1].split('::')[1], t)


def accepts(t, want, Q, b):
    """does parameter type t take what `want` describes"""
    if want not in ('any', 'dict', 'tuple'):
        return norm(t) == norm(want)
    u = norm(t).replace('::pyo3::', '').replace('pyo3::', '')
    if want == 'dict':
        return 'IntoPyDict' in u and u.startswith('impl')
    return u.startswith('impl') and ('IntoPy<' in u or 'ToPyObject' in u) and (want == 'tuple') == ('PyTuple' in u)


def rust_side(rep, P, M, T, thorough):
    ds = T.all(thorough) + [('Other', 'm.C[list[int]]'), ('Other', 'm.C[dict[str, list[int]]]'), ('PyList', ('Other', 'm.C[list[int]]')), ('Other', 'm.CC'), ('Other', 'C'), ('Other', 'm'), ('Other', 'm.C.D')]
    n = 60
    jobs = []
    for k in range(0, len(ds), n):
        part = ds[k:k + n]

        def mk(part=part):
            return module(P, P_(P, 'm'), classes=[klass(P, P_(P, 'm.C'))], functions=[function(P, P_(P, 'm.f%d' % i), 'Function', None, [param(P, 'x', 'PositionalOrKeyword', ann=T.mk(d))], T.mk(d)) for i, d in enumerate(part)]), [P_(P, 'm.C')]
        jobs.append(dict(label='types %s to %s' % (show(part[0]), show(part[-1])), make=mk, want={}, part=part))
    outs = emit(rep, P, M, 'c13', jobs)
    W = lower(rep, 'c13', outs, jobs)
    Q = W.prog
    for k, (_, (i, _imps)) in enumerate(W.items):
        if k in W.errors:
            continue
        G = generated(Q, k)
        cls = 'vpwitness_c13::w%d::m::C' % k
        for x, d in enumerate(jobs[i]['part']):
            bs = G.get(('m', 'fn', 'f%d' % x), [])
            if len(bs) != 1:
                rep.violation('a binding is not generated exactly once', '%s: %d times' % (show(d), len(bs)))
                continue
            b = bs[0]
            l = b['locals'][0]
            r = Q.types[l if isinstance(l, int) else l['t']]['s']
            own, bor = rust(d, cls)
            rep.count('obligations', 2)
            rep.count('Rust types judged', 2)
            if norm(r) != norm('core::result::Result<%s, pyo3::err::PyErr>' % own):
                rep.violation('a result is returned as another Rust type', '%s: %s instead of %s' % (show(d), r, own))
            a = [t for t in argnames(Q, b) if not t.startswith('pyo3::marker::Python')]
            if len(a) != 1 or not accepts(a[0], bor, Q, b):
                rep.violation('a parameter is taken as another Rust type', '%s: %s instead of %s' % (show(d), a, bor))
