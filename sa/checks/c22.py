"""C22 submodules are visited under their own name only, dependencies once: the traversal ends and nothing is visited twice"""
from engine import *
from checks.c02 import hset

HERE = 'pk.m'
CANDS = ('pk.m.s', 'pk.m', 'pk', 'pk.s', 'pk.m.t', 'ext', 's')


def mod_name(policy, path, o):
    """module pk.m; whatever is found where its submodule is looked for calls itself by any of the names"""
    if o is S('mod'):
        return HERE
    k = ('its name', o)
    if k not in path.memo:
        path.memo[k] = path.split(CANDS, '__name__ of %r' % (o,))
    return path.memo[k]


def run(rep):
    P = program()
    M = contracts(P)
    mp = fn(P, 'module::Module::parse')
    summary = {'module::Module::parse': module_summary(P), 'module::Module::extract_prelude': lambda I, a, ref, rt: ok(Lst([])),
               'config::Config::is_attr_allowed': lambda I, a, ref, rt: True,
               'class::Class::parse': summary_parser(P, 'class::Class', 'Class')(''), 'function::Function::parse': summary_parser(P, 'function::Function', 'Function')(''),
               'property::Property::parse': summary_parser(P, 'property::Property', 'Property')('')}

    class Pol(ParsePolicy):
        module_name = mod_name
        nattr = (0,)
        opaque_names = dict(summary, **{'module::Module::extract_submodules': lambda I, a, ref, rt: ok(hset(P, I, ['s']))})

        def outcomes(self, path, ev):
            return ('ok', 'err') if ev.kind == 'import' else ('ok',)

    class AttrPol(Pol):
        """the module also has an attribute of the name of the submodule: the submodule itself, or something imported over it"""
        nattr = (1,)
        variant = 'Import'

        def __init__(self, variant, listed):
            self.opaque_names = dict(summary, **{'module::Module::extract_submodules': lambda I, a, ref, rt: ok(hset(P, I, listed)),
                                                 'AttributeVariant::determine': lambda I, a, ref, rt: ok(enum(P, 'AttributeVariant', variant))})

    def r(path):
        return Interp(P, path, M).call_body(mp, [Ref([cfg_with(P)]), S('mod')])

    def judge(what):
        def j(L, path, o):
            if o[0] in ('undecided', 'stop'):
                return
            for e in path.events:
                if e.kind == 'parse' and e.name == 'Module':
                    obj = e.args[0]
                    L.count('obligations')
                    n = path.memo.get(('its name', obj)) if obj is not S('mod') else HERE
                    if n is None:
                        L.violation('%s: a module is visited without regard to what it is called' % what, 'an alias of another module may be visited in the place of its submodule: %r' % (obj,))
                    elif not n.startswith(HERE + '.'):
                        L.violation('%s: a module that is not below the visited one is visited from it, for which the traversal does not end' % what,
                                    '`pk.m` visits the module called `%s`, which it finds in the place of its submodule `s`; `%s` visits `pk.m` in turn (%r)' % (n, n, obj))
                    elif n != place(path, obj):
                        L.violation('%s: a module is visited in the place of another, so it is visited twice' % what, '`pk.m` visits the module called `%s`, which it finds in the place of its submodule `s` (%r)' % (n, obj))
                    else:
                        L.d['cov']['visited: ' + what] = 1
            ns = [repr(e.args[0]) for e in path.events if e.kind == 'parse' and e.name == 'Module']
            L.count('obligations')
            if len(ns) != len(set(ns)):
                L.violation('%s: a submodule is visited twice' % what, ' '.join(ns))
            L.count('traversals')
        return j

    def place(path, obj):
        """the name of the place where the object was found, as far as this path knows it"""
        t = obj.args[0] if obj.op == 'pymodule' else cat(HERE, '.', obj.args[1]) if obj.op == 'attr' and obj.args[0] is S('mod') else None
        t = path.val(t) if isinstance(t, Sym) else t
        if isinstance(t, Sym) and t.op == 'cat':
            t = cat(*[path.val(x) if isinstance(x, Sym) else x for x in t.args])
        return HERE + '.' + t.split('.')[-1] if isinstance(t, str) else t       # wherever it is looked for
    cases = [('a listed submodule', Pol(), 1)]
    for v in ('Import', 'Module', 'Class', 'Property', 'TypeVar'):
        for listed in (['s'], []):
            cases.append(('a listed submodule and an attribute (%s)' % v if listed else 'an attribute (%s)' % v, AttrPol(v, listed), bool(listed) or v == 'Module'))
    for what, pol, need in cases:
        explore_all(rep, what, r, pol, judge(what))
        if need and not rep.cov.pop('visited: ' + what, 0):
            rep.violation('coverage: no submodule visited: ' + what, '')

    dependencies(rep, P, M)
    return dict(level='other', rule='On every abstract path of Module::parse every recursive visit is to an object whose own `__name__` was established to be the name of the place it was found in (which lies strictly below the visited module); Codegen::parse_dependencies visits no two objects of one name and none for which no import asked.',
                assumptions=['the modules of a program are finitely many, and a name below a module is longer than the name of the module', 'contracts of std/itertools/pyo3 functions in sa/models.py', 'one listed submodule and at most one attribute per visited module; two imports per request'],
                explanation='Path-sensitive abstract interpretation of the MIR of Module::parse and Codegen::parse_dependencies; the object found in the place of a submodule calls itself by each of the names: its own, that of its parent, of the root, of a sibling, of another package.')


def dependencies(rep, P, M):
    pd = fn(P, 'Codegen::parse_dependencies')

    class Pol(ParsePolicy):
        opaque_names = {'module::Module::parse': module_summary(P), 'config::Config::is_attr_allowed': lambda I, a, ref, rt: True}

        def module_name(self, path, o):
            k = ('its name', o)
            if k not in path.memo:
                path.memo[k] = path.split(('a', 'b'), '__name__ of %r' % (o,))
            return path.memo[k]

        def outcomes(self, path, ev):
            return ('ok', 'err') if ev.kind == 'getattr' and ev.args[1] not in ('stdout', 'stderr', '__module__') or ev.kind == 'import' else ('ok',)
    tops = [mk_path(P, [S('t0'), S('t1')])] * 2

    def r(origins, deep):
        def go(path):
            I = Interp(P, path, M)
            imps = [struct(P, 'import::Import', None, origin=mk_path(P, list(o)), target=t, import_type=enum(P, 'ImportType', 'ExternalImport')) for o, t in zip(origins, tops)]
            fs = fields(P, 'module::Module')
            def mod(imports, subs=()):
                m = Adt(adt_named(P, 'module::Module'), 0, [Lst([]) if f in VECS else S('top', f) for f in fs])
                m.f[fs.index('imports')] = Lst(imports)
                m.f[fs.index('submodules')] = Lst(list(subs))
                return m
            ms = [mod(imps[:1], [mod(imps[1:])])] if deep else [mod(imps[:1]), mod(imps[1:])]
            cg = Adt(adt_named(P, 'codegen::Codegen'), 0, [cfg_with(P) if f == 'cfg' else Lst(ms) if f == 'modules' else HMap(False, 'Fx') for f in fields(P, 'codegen::Codegen')])
            return I.call_body(pd, [Ref([cg])])
        return go

    def j(L, path, o):
        if o[0] in ('undecided', 'stop'):
            return
        ns = [path.memo.get(('its name', e.args[0])) or repr(e.args[0]) for e in path.events if e.kind == 'parse' and e.name == 'Module']
        L.count('obligations')
        L.count('requests')
        for n in ns:
            L.d['cov']['dependencies visited'] = 1
        if len(ns) != len(set(ns)):
            L.violation('a dependency is visited twice', 'two imports of members of the module `%s` both visit it' % [n for n in ns if ns.count(n) > 1][0])
    for origins in (('r0', 'c0'), ('r0', 'c1')), (('r0', 'c0'), ('r0', 'c0')), (('r0', 'c0'), ('r1', 'c0')), (('r0', 's0', 'c0'), ('r0', 'c0')):
        for deep in (True, False):
            explore_all(rep, 'dependencies of imports from %s' % ' and '.join('.'.join(o) for o in origins), r(origins, deep), Pol(), j)
    if not rep.cov.pop('dependencies visited', 0):
        rep.violation('coverage: no dependency visited', '')
