"""C01 only attributes the configuration admits become bindings"""
from engine import *

FORBIDDEN = ("get_type", "obj", "py", "repr", "str")
KEPT = ('__init__', '__call__')


def admitted(path, n, segs, why):
    """is the admission of name n coming from module segments segs established by the facts of this path? -> list of what is not"""
    miss = []
    k = path.known
    eq = lambda a, b: (a == b) if isinstance(a, str) and isinstance(b, str) else k(mk_eq(a, b))
    for f in FORBIDDEN:
        if eq(n, f) is not False:
            miss.append('reserved name')
            break
    bl = path.memo.get(('list', S('cfg', 'blocklist_names')))
    if bl is None:
        miss.append('blocklist')
    else:
        for e in bl.items:
            if eq(e, n) is not False:
                miss.append('blocklist')
                break
    if k(S('cfg', 'include_private')) is not True:
        pre = lambda s: s.startswith('_') if isinstance(s, str) else k(S('prefix', s, '_'))
        if pre(n) is not False:
            miss.append('private name')
        if any(pre(s) is not False for s in segs):
            miss.append('private module')
    for bad in ('__future__', 'typing'):
        if any(eq(s, bad) is not False for s in segs):
            miss.append(bad + ' module')
    return miss


def segs_of(path, s):
    g = path.memo.get(('pathsegs', s))
    if g is None:
        return None
    return [env.py_name(x) for x in g]


def attr_module_of(path, obj, n):
    """segments of the module attribute n of obj says it comes from"""
    a = S('attr', obj, n)
    if path.memo.get(('pyres', 'getattr', a, '__module__')) == 'err':
        return []
    return segs_of(path, S('str', S('attr', a, '__module__')))


def show_names(ns):
    return '.'.join(x if isinstance(x, str) else repr(x) for x in ns)


def judge_member(L, path, kind, owner, n, owner_obj, where, alt=None, exempt=()):
    L.count('obligations')
    opts = []
    am = attr_module_of(path, owner_obj, n)
    if am is not None:
        opts.append(am)
    if alt is not None:
        opts.append(alt)
    if isinstance(n, Sym) and any(path.known(mk_eq(n, e)) is True for e in exempt) or n in exempt:
        L.count('exempt members')
        return
    misses = [admitted(path, n, o, where) for o in opts]
    if not misses:
        misses = [['origin module']]
    if any(not m for m in misses):
        return
    for m in min(misses, key=len):
        L.violation('%s %s emitted without establishing: %s' % (where, kind, m),
                    'a path of %s emits a %s although nothing on the path rules out: %s; name %r' % (where, kind, m, n))


def run(rep):
    P = program()
    M = contracts(P)
    allowed = fn(P, 'Config::is_attr_allowed')

    # 1. the admission predicate itself
    class Pol1(ParsePolicy):
        def segments(self, path, s):
            return (0, 1, 2)

    def run1(path):
        I = Interp(P, path, M)
        nsegs = path.split((0, 1, 2), 'segments of the origin module')
        path.memo['segs'] = [S('pyseg', S('omod'), i, nsegs) for i in range(nsegs)]
        return I.call_body(allowed, [Ref([sym_cfg(P)]), Ref([mk_ident(P, S('rs', S('attrname')))]), Ref([mk_path(P, path.memo['segs'])]), Ref([S('atype')])])

    def judge1(L, path, out):
        if out[0] != 'ret':
            return
        v = out[1]
        for val in (True, False):
            pass
        if isinstance(v, Sym):
            kv = path.known(v)
            if kv is None:
                path.assume(v, True)      # consider the admitting half
                kv = True
            v = kv
        L.count('obligations')
        L.count('admission outcomes: ' + ('admitted' if v else 'refused'))
        if v is True:
            for m in admitted(path, S('attrname'), path.memo['segs'], 'is_attr_allowed'):
                L.violation('is_attr_allowed admits without establishing: ' + m, 'Config::is_attr_allowed returns true on a path where this is not ruled out: %s; facts %s' % (m, list(path.facts.items())[:12]))
            L.sample('is_attr_allowed -> true under ' + ', '.join('%s=%s' % x for x in list(path.facts.items())[:8]))
    explore_all(rep, 'is_attr_allowed', run1, Pol1(), judge1)

    # 2. members of a module
    mp = fn(P, 'module::Module::parse')

    class Pol2(ParsePolicy):
        opaque_names = {'class::Class::parse': summary_parser(P, 'class::Class', 'Class')(''),
                        'function::Function::parse': summary_parser(P, 'function::Function', 'Function')(''),
                        'property::Property::parse': summary_parser(P, 'property::Property', 'Property')(''),
                        'module::Module::parse': module_summary(P)}

        def outcomes(self, path, ev):
            if ev.kind in ('getattr',) and ev.args[1] in ('__module__', '__name__'):
                return ('ok', 'err')
            if ev.kind == 'import' and isinstance(ev.args[0], Sym):
                return ('ok', 'err')
            if ev.kind == 'index':
                return ('ok', 'err')
            return ('ok',)

        def segments(self, path, s):
            return (1,) if isinstance(s, Sym) and s.op == 'modname' else (0, 2)

    def mk_run(part):
        def run2(path):
            # the prelude and the submodule search are analysed apart from the members (they are independent inputs)
            cfg = sym_cfg(P)
            fs = fields(P, 'config::Config')
            if part == 'prelude':
                path.memo['nodir'] = True
            else:
                cfg.f[fs.index('generate_preludes')] = False
            if part != 'package':
                path.assume(S('hasattr', S('mod'), '__path__'), False)
            else:
                path.assume(S('hasattr', S('mod'), '__path__'), True)
            I = Interp(P, path, M)
            path.memo['I'] = I
            return I.call_body(mp, [Ref([cfg]), Ref([S('mod')])])
        return run2

    def judge2(L, path, out):
        if out[0] != 'ret' or not isinstance(out[1], Adt) or out[1].v != 0:
            return
        m = out[1].f[0]
        I = path.memo['I']
        mod = S('mod')
        own = path_names(I, field(P, m, 'name', 'module::Module'))
        for vec in ('classes', 'functions', 'properties', 'type_vars'):
            for it in list_of(I, field(P, m, vec, 'module::Module')):
                it = I.deref(it)
                tail = {'classes': 'class::Class', 'functions': 'function::Function', 'properties': 'property::Property', 'type_vars': 'type_var::TypeVar'}[vec]
                ns = path_names(I, field(P, it, 'name', tail))
                L.count('module members: ' + vec)
                judge_member(L, path, vec, own, ns[-1], mod, 'Module::parse')
        for it in list_of(I, field(P, m, 'imports', 'module::Module')):
            it = I.deref(it)
            tgt = path_names(I, field(P, it, 'target', 'import::Import'))
            org = path_names(I, field(P, it, 'origin', 'import::Import'))
            L.count('module members: imports')
            judge_member(L, path, 'import', own, tgt[-1], mod, 'Module::parse')
            for i, s in enumerate(org):
                L.count('obligations')
                for x in admitted(path, s, org[:i], ''):
                    L.violation('Module::parse import origin without establishing: ' + x, 'an import is emitted whose origin segment %d of %s is not ruled out: %s' % (i, show_names(org), x))
        for it in list_of(I, field(P, m, 'prelude', 'module::Module')):
            it = I.deref(it)
            L.count('module members: prelude')
            judge_member(L, path, 'prelude entry', own, env.py_name(it.f[0]), mod, 'Module::parse', alt=own)
        for e in path.events:
            if e.kind == 'parse' and e.name == 'Module':
                L.count('module members: submodules')
                n = submodule_name(e.args[0], mod)
                if n is None:
                    L.violation('Module::parse submodule of unknown provenance', 'submodule object %r' % (e.args[0],))
                else:
                    judge_member(L, path, 'submodule', own, n, mod, 'Module::parse', alt=own)

    def submodule_name(o, mod):
        if o.op == 'attr' and o.args[0] is mod:
            return o.args[1]
        if o.op == 'pymodule':
            ps = parts(o.args[0])
            if len(ps) == 3 and ps[0] is S('modname', mod) and ps[1] == '.':
                return ps[2]
        return None

    class Pol2p(Pol2):
        def lengths(self, path, s):
            if isinstance(s, Sym) and s.op == 'dir':
                return (0,)
            return Pol2.lengths(self, path, s)

    class Pol2k(Pol2):
        def lengths(self, path, s):
            if isinstance(s, Sym) and s.op == 'dir':
                return (0, 1) if rep.tier == 'thorough' else (0,)
            return Pol2.lengths(self, path, s)
    explore_all(rep, 'Module::parse members', mk_run('members'), Pol2(), judge2)
    explore_all(rep, 'Module::parse prelude', mk_run('prelude'), Pol2p(), judge2)
    explore_all(rep, 'Module::parse submodules', mk_run('package'), Pol2k(), judge2)
    for vec in ('classes', 'functions', 'properties', 'type_vars', 'imports', 'prelude', 'submodules'):
        if not rep.cov.get('module members: ' + vec):
            rep.violation('coverage: no emission of %s found in Module::parse' % vec, 'the analysis reaches no path on which this kind of member is emitted')

    # 3. members of a class
    cp = fn(P, 'class::Class::parse')

    def run3(path):
        I = Interp(P, path, M)
        path.memo['I'] = I
        return I.call_body(cp, [Ref([sym_cfg(P)]), Ref([S('cls')]), mk_path(P, [S('owner'), S('clsname')])])

    def judge3(L, path, out):
        if out[0] != 'ret' or out[1].v != 0:
            return
        c = out[1].f[0]
        I = path.memo['I']
        for vec, tail in (('methods', 'function::Function'), ('properties', 'property::Property')):
            for it in list_of(I, field(P, c, vec, 'class::Class')):
                it = I.deref(it)
                ns = path_names(I, field(P, it, 'name', tail))
                L.count('class members: ' + vec)
                judge_member(L, path, vec, [], ns[-1], S('cls'), 'Class::parse', exempt=KEPT)

    class Pol3(Pol2):
        pass
    explore_all(rep, 'Class::parse members', run3, Pol3(), judge3)
    for vec in ('methods', 'properties'):
        if not rep.cov.get('class members: ' + vec):
            rep.violation('coverage: no emission of %s found in Class::parse' % vec, '')

    # 4. a class always keeps __init__ and __call__: no path that reads the attribute and finds a function drops it
    for special in KEPT:
        def run4(path, special=special):
            d = S('str', S('pyel', S('dir', S('cls')), 0))
            path.assume(mk_eq(d, special), True)
            return run3(path)

        def judge4(L, path, out, special=special):
            if out[0] != 'ret' or out[1].v != 0:
                return
            # the attribute was readable and is a function
            a = S('attr', S('cls'), special)
            d = S('str', S('pyel', S('dir', S('cls')), 0))
            isf = [f for f, v in path.facts.items() if v and f.op == 'truthy' and 'isfunction' in repr(f)]
            L.count('obligations')
            got = any(e.kind == 'parse' and e.name == 'Function' for e in path.events)
            det = any(e.kind == 'pycall' for e in path.events)
            if not det:
                L.violation('Class::parse drops %s before looking at it' % special, 'a class attribute %s is filtered out by the configuration' % special)
        explore_all(rep, 'Class::parse keeps ' + special, run4, Pol3(), judge4)

    # 5. automatically added dependencies
    pd = fn(P, 'Codegen::parse_dependencies')

    class Pol5(Pol2):
        opaque_names = {'module::Module::parse': module_summary(P)}

        def outcomes(self, path, ev):
            if ev.kind == 'getattr' and ev.args[1] not in ('stdout', 'stderr'):
                return ('ok', 'err')
            return ('ok',)

    def run5(path):
        I = Interp(P, path, M)
        path.memo['I'] = I
        imp = struct(P, 'import::Import', None, origin=mk_path(P, [S('o0'), S('o1')]), target=mk_path(P, [S('t0'), S('t1')]), import_type=enum(P, 'ImportType', 'ExternalImport'))
        mod = Adt(adt_named(P, 'module::Module'), 0, [Lst([]) if f in VECS else S('top', f) for f in fields(P, 'module::Module')])
        mod.f[fields(P, 'module::Module').index('imports')] = Lst([imp])
        fs = fields(P, 'codegen::Codegen')
        cg = Adt(adt_named(P, 'codegen::Codegen'), 0, [sym_cfg(P) if f == 'cfg' else Lst([mod]) if f == 'modules' else HMap(False, 'Fx') for f in fs])
        return I.call_body(pd, [Ref([cg])])

    def judge5(L, path, out):
        if out[0] != 'ret':
            return
        for e in path.events:
            if e.kind == 'parse' and e.name == 'Module':
                L.count('dependencies parsed')
                L.count('obligations')
                o = e.args[0]
                nm = S('modname', o)
                segs = segs_of(path, nm)
                cands = []
                for ss in ([nm], segs or [nm]):
                    ms = []
                    for i, s in enumerate(ss):
                        ms += admitted(path, s, ss[:i] if len(ss) > 1 else [], '')
                    cands.append(ms)
                if all(cands):
                    for m in min(cands, key=len):
                        L.violation('parse_dependencies adds a module without establishing: ' + m, 'dependency %r' % (o,))
    explore_all(rep, 'parse_dependencies', run5, Pol5(), judge5)
    if not rep.cov.get('dependencies parsed'):
        rep.violation('coverage: no dependency parsed in parse_dependencies', '')
    return dict(level='other', rule='On every abstract path that emits a member, the recorded facts must imply each clause of the admission rule (reserved, blocklist, private name, private origin, __future__/typing origin).',
                assumptions=['contracts of std/itertools/pyo3 functions in sa/models.py', 'Ident/Path name contracts (decided by C08)', 'per path: 1 attribute, origin modules of 0 or 2 segments, 2 blocklist entries'],
                explanation='Path-sensitive abstract interpretation of the MIR of is_attr_allowed, Module::parse, Class::parse, parse_dependencies and everything they call, over symbolic Python objects; obligations are the (path, emitted member) pairs.')
