"""C05 introspecting an importable module never panics"""
from tree import P_ as _p
from gencg import *

CFG_T = 'typing::Type'


class Hostile(ParsePolicy):
    """nothing is assumed of the introspected objects: any call into Python may fail (up to K failures per path), any string may
    have any content, also none at all"""
    K = 1
    nattr = (0, 1)
    seg = (0, 1, 2)
    loop_bound = {'format_docstring': 3, 'repair_complex_sequence': 4}

    def outcomes(self, path, ev):
        return ('ok', 'err') if sum(e.res == 'err' for e in path.events) < self.K else ('ok',)

    def segments(self, path, s):
        return self.seg

    def lengths(self, path, s):
        if s is S('cfg', 'blocklist_names'):
            return (0,)
        return self.nattr if isinstance(s, Sym) and s.op == 'dir' else (0, 1, 2)

    def theory(self, path, t):
        if t.op == 'eq' and '' in t.args:
            return None
        return ParsePolicy.theory(self, path, t)


def type_values(P):
    """every variant of the type representation, with unknown and with known inner types"""
    def T(n, *f):
        return enum(P, CFG_T, n, *f)
    box = lambda t: Box_(t)
    out = []
    for v in P.adts[adt_named(P, CFG_T)]['v']:
        n, f = v['n'], v['f']
        def fill(inner):
            r = []
            for x in f:
                if n == 'Other':
                    r.append(S('tn', 'x'))
                elif n in ('Union', 'PyTuple') or x == 'param_types':
                    r.append(Lst(inner))
                else:
                    r.append(box(inner[0] if inner else T('Unknown')))
            return T(n, *r)
        if not f:
            out.append((n, lambda n=n: T(n)))
        elif n == 'Other':
            out.append((n, lambda fill=fill: fill([])))
        else:
            for i, inner in enumerate(([], ['Unknown'], ['PyString'], ['PyLong', 'PyNone'], ['PyEllipsis'], ['Other'], ['PyLong', 'PyEllipsis'])):
                out.append(('%s%d' % (n, i), lambda fill=fill, inner=inner: fill([T(x) if x != 'Other' else T(x, S('tn', 'y')) for x in inner])))
    return out


def run(rep):
    P = program()
    M = contracts(P)
    thorough = rep.tier != 'quick'
    subs = {'class::Class::parse': summary_parser(P, 'class::Class', 'Class')(''),
            'function::Function::parse': summary_parser(P, 'function::Function', 'Function')(''),
            'property::Property::parse': summary_parser(P, 'property::Property', 'Property')(''),
            'module::Module::parse': module_summary(P), TYPE_FROM: type_summary, 'format_docstring': fmtdoc}

    def pol(opaque=subs, **kw):
        class Q(Hostile):
            def opaque(self, I, name, body, args):
                if not I.frames:
                    return None
                for tail, h in opaque.items():
                    if name.endswith(tail):
                        return h
                return None
        q = Q()
        for k, v in kw.items():
            setattr(q, k, v)
        return q

    def explore(what, run_, policy, budget=100, need=('ret',)):
        def judge(L, path, o):
            L.count('obligations')
            if o[0] == 'panic':
                e = o[1]
                L.violation('%s may panic (%s)' % (what, getattr(e, 'kind', '')), 'reachable panic: %s; after %s' % (str(e)[:200], [x.kind + ('!' if x.res == 'err' else '') for x in path.events][-8:]))
            elif o[0] == 'ret':
                L.d['cov']['reach ' + what] = 1
                if any(e.res == 'err' for e in path.events):
                    L.count('paths with a failing Python call')
            L.sample('%s: %s -> %s' % (what, [e.kind + ('!' if e.res == 'err' else '') for e in path.events][-6:], o[0]))
        explore_all(rep, what, run_, policy, judge, budget_s=budget)
        rep.count('obligations')
        if not rep.cov.pop('reach ' + what, 0):
            rep.violation('coverage: no path of %s completes' % what, 'the analysis found no path through the function')

    def call(body, args):
        def r(path):
            return Interp(P, path, M).call_body(body, args())
        return r

    # ---- parsing
    cfg = lambda **k: cfg_with(P, **k)
    mpath = lambda: mk_path(P, [S('m'), S('x')])
    F = lambda kind: ftype(P, kind, mk_path(P, [S('m'), S('c')]))
    own = lambda k: enum(P, 'PropertyOwner', k)
    pf = {'function::Function::parse': subs['function::Function::parse'], 'property::Property::parse': subs['property::Property::parse'],
          TYPE_FROM: type_summary, 'format_docstring': fmtdoc}
    flat_ = {TYPE_FROM: type_summary, 'format_docstring': fmtdoc}
    ob = [(a, b) for a, b in (('Module::empty', lambda: [S('py'), mpath()]),
          ('Module::extract_submodules', lambda: [Ref([sym_cfg(P)]), Ref([S('mod')])]),
          ('Module::extract_prelude', lambda: [Ref([cfg()]), Ref([S('mod')]), Ref([mpath()])]),
          ('Class::parse', lambda: [Ref([cfg()]), Ref([S('cls')]), mpath()]),
          ('Property::parse', lambda: [Ref([cfg()]), Ref([S('prop')]), mpath(), own('Class')]),
          ('Property::parse', lambda: [Ref([cfg()]), Ref([S('prop')]), mpath(), own('Module')]))]
    for name, args in ob:
        helper = name.split('::')[1] in ('extract_submodules', 'extract_prelude')
        try:
            body = fn(P, name.lower().split('::')[0] + '::' + name)
        except Missing:
            if helper:
                continue            # a private helper: its code is analysed wherever it is called from
            raise
        explore(name, call(body, args), pol(pf if name == 'Class::parse' else subs if name.startswith('Module') else flat_))
    body = fn(P, 'function::Function::parse')
    kinds = ('Function', 'InstanceMethod') + (('Constructor', 'Callable', 'ClassMethod', 'StaticMethod', 'Unknown') if thorough else ())
    for k in kinds:
        explore('Function::parse', call(body, lambda k=k: [Ref([cfg()]), Ref([S('fun')]), mpath(), F(k)]), pol(flat_))
    if not thorough:
        explore('Function::parse', call(body, lambda: [Ref([cfg()]), Ref([S('fun')]), mpath(), F('Unknown')]), pol(flat_, K=1, nattr=(0,)), budget=60)
    body = fn(P, 'module::Module::parse')

    def some_submodules(I, a, ref, rt):
        """summary of the submodule search (explored on its own above): no submodule, one of unknown name, or an error"""
        k = I.path.split(('none', 'one', 'err'), 'result of extract_submodules')
        h = HMap(True, 'Fx')
        if k == 'one':
            h.keys.append(mk_ident(P, S('rs', S('sub')))), h.vals.append(None)
        return err(S('suberr', 'submodules')) if k == 'err' else ok(h)
    helpers = {'module::Module::extract_submodules': some_submodules}
    off = dict(traverse_submodules=False, generate_preludes=False)
    one = pol({**subs, **helpers}, seg=(1,))
    explore('Module::parse', call(body, lambda: [Ref([cfg(**off)]), Ref([S('mod')])]), one, budget=60)
    explore('Module::parse', call(body, lambda: [Ref([cfg(generate_preludes=False)]), Ref([S('mod')])]), pol({**subs, **helpers}, seg=(1,), nattr=(0,)), budget=60)
    explore('Module::parse', call(body, lambda: [Ref([cfg()]), Ref([S('mod')])]), pol({**subs, **helpers}, seg=(1,), nattr=(0,)), budget=60)
    if thorough:
        explore('Module::parse', call(body, lambda: [Ref([cfg(**off)]), Ref([S('mod')])]), pol({**subs, **helpers}, seg=(0, 1, 2)), budget=400)
        explore('Module::parse', call(body, lambda: [Ref([cfg(**off)]), Ref([S('mod')])]), pol({**subs, **helpers}, seg=(1,), K=2), budget=400)
        explore('Module::parse', call(body, lambda: [Ref([cfg()]), Ref([S('mod')])]), pol({**subs, **helpers}, seg=(1,)), budget=400)
    # ---- annotations
    bodies = list(P.bodies.values())

    def named(*tails):
        r = [b for b in bodies if any(b['name'].endswith(t) for t in tails) and b['kind'] == 'fn']
        if not r:
            raise Missing(tails[0])
        return r[0]
    nested = {TYPE_FROM: type_summary, '::from_str': lambda I, a, ref, rt: ok(S('typeofstr', models.sv(I, a[0])))}
    a = "TryFrom<pyo3::instance::Bound<'_, pyo3::types::%s>> for pyo3_bindgen_engine::typing::Type>::try_from"
    explore('Type::try_from(object)', call(named(a % 'any::PyAny'), lambda: [S('obj')]), pol(nested))
    explore('Type::try_from(type)', call(named(a % 'typeobject::PyType'), lambda: [S('obj')]), pol(nested))
    explore('Type::from_str', call(named('typing::Type>::from_str'), lambda: [S('ann')]), pol(nested))
    # ---- text
    explore('format_docstring', call(named('text::format_docstring'), lambda: [Ref([S('doc')])]), pol({}, nattr=(0, 1, 2, 3)))
    # ---- generation
    gp = gen_policy(P, False, kinds=(), base=type('G', (Hostile,), {'K': 0}))

    body_g = fn(P, 'module::Module::generate')
    N = lambda *x: mk_path(P, [S('nm', y) for y in x])
    D = lambda n: S('doc', n)

    def gen(what, mk, all_types=(), budget=60, policy=gp, **sw):
        explore(what, call(body_g, lambda: [Ref([mk()]), Ref([cfg(**sw)]), Slice([]), Slice([N(*x) for x in all_types])]), policy, budget)
    in_mod = lambda **kw: module(P, N('m'), **{k: v for k, v in kw.items()})
    in_cls = lambda *ms, props=(): in_mod(classes=[klass(P, N('m', 'C'), methods=list(ms), properties=list(props), doc=D('C'))])
    PK = [v['n'] for v in P.adts[adt_named(P, 'ParameterKind')]['v']]
    MK = [v['n'] for v in P.adts[adt_named(P, 'MethodType')]['v']]
    p0 = lambda: param(P, S('nm', 's'), 'PositionalOrKeyword')
    for pk in PK:
        gen('Function::generate', lambda pk=pk: in_mod(functions=[function(P, N('m', 'f'), 'Function', None, [param(P, S('nm', 'x'), pk, default=S('dflt'))], doc=D('f'))]))
        for k in MK:
            if not thorough and pk != PK[1] and k not in ('InstanceMethod', 'Constructor'):
                continue
            gen('Function::generate', lambda pk=pk, k=k: in_cls(function(P, N('m', 'C', 'f'), k, N('m', 'C'), [p0(), param(P, S('nm', 'x'), pk)], doc=D('f'))))
    gen('Function::generate', lambda: in_mod(functions=[function(P, N('m', 'f'), 'Function', None, [])]))
    for k in MK:
        gen('Function::generate', lambda k=k: in_cls(function(P, N('m', 'C', 'f'), k, N('m', 'C'), [])))
    for o, mod in (('Module', True), ('Class', False)):
        for mut in (True, False):
            f = lambda o=o, mut=mut, mod=mod: prop(P, N('m', 'p') if mod else N('m', 'C', 'p'), o, mut, doc=D('p'), sdoc=D('sp'))
            gen('Property::generate', lambda f=f, mod=mod: in_mod(properties=[f()]) if mod else in_cls(props=[f()]))
    gen('Import::generate', lambda: in_mod(imports=[import_(P, N('m', 'a', 'b'), N('m', 'c'))]))
    gen('Import::generate', lambda: in_mod(imports=[import_(P, N('m', 'a', 'b'), N('m', 'c'), 'PackageReexport')]))
    gen('Import::generate', lambda: in_mod(imports=[import_(P, N('o'), N('m', 'c'), 'ExternalImport')]))
    gen('TypeVar::generate', lambda: in_mod(type_vars=[typevar(P, N('m', 'T'))]))
    gen('Class::generate', lambda: in_cls(), all_types=[('m', 'C')])
    gen('Module::generate', lambda: module(P, N('m'), doc=D('m'), source=S('source'), prelude=[S('nm', 'q')], submodules=[module(P, N('m', 's'), doc=D('s'), source=S('source2'))]))
    # every type in every position
    for nm, t in type_values(P):
        gen('types: Function::generate', lambda t=t: in_mod(functions=[function(P, _p(P, 'm.f'), 'Function', None, [param(P, 'x', 'PositionalOrKeyword', ann=t())], ret=t())]), all_types=[('m', 'C')])
        gen('types: Property::generate', lambda t=t: in_mod(properties=[prop(P, _p(P, 'm.p'), 'Module', ann=t(), sann=t())]))
    # ---- the entry points, with the parser of a module and the generator of a module as summaries
    from cg import generate_summary
    top = {'module::Module::parse': module_summary(P), 'module::Module::generate': generate_summary(P)}
    old = lambda: empty_module(P, name=mk_path(P, [S('a'), S('b')]), imports=Lst([external_import(P)]))
    old2 = lambda: empty_module(P, name=mk_path(P, [S('c')]))
    plain = lambda: cfg(generate_dependencies=True)

    def entry(tail, mk, ms, c, **kw):
        explore('Codegen::' + tail, call(fn(P, 'Codegen::' + tail), lambda: [codegen_value(P, c(), [m() for m in ms])] + mk()), pol(top, **{'seg': (1,), **kw}), 100)
    one_name = lambda: [S('n0')]
    entry('module', lambda: [Ref([S('mm')])], (), lambda: sym_cfg(P), seg=(0, 1, 2))
    for c in (plain, lambda: sym_cfg(P)):
        entry('module_name', one_name, (old,), c)
        entry('module_from_str', lambda: [S('src'), S('n0')], (old,), c)
    entry('module_names', lambda: [Slice([S('n0'), S('n1')])], (), plain)
    entry('modules', lambda: [Slice([S('m0'), S('m1')])], (), plain)
    for tail, mk in (('generate', lambda: []), ('build', lambda: [S('outfile')])):
        for ms in ((), (old,), (old, old2)):
            entry(tail, mk, ms, plain)
        if thorough:
            entry(tail, mk, (old, old2), lambda: sym_cfg(P))
    # module trees with concrete names, real tree handling
    from tree import content, gen_capture
    tp = {'module::Module::parse': module_summary(P), 'module::Module::generate': gen_capture(P)}
    trees = [lambda: [content(P, 'a.b.c', 'x')], lambda: [content(P, 'a.b', 'x'), content(P, 'a', 'y', [content(P, 'a.b', 'z', [content(P, 'a.b.c', 'w')])])],
             lambda: [content(P, 'a.b.c', 'x'), content(P, 'a.d', 'y'), content(P, 'e', 'z'), content(P, 'a.b.c', 'w')], lambda: [content(P, 'a', 'x'), content(P, 'a', 'x')]]
    for t in trees:
        explore('Codegen::generate', call(fn(P, 'Codegen::generate'), lambda t=t: [codegen_value(P, plain(), t())]), pol(tp, seg=(1,)), 60)
    inv = inventory(P)
    return dict(level='other',
                rule='no path through the functions that turn Python objects into bindings ends in a panic (unwrap, expect, index, slice, assert, unreachable, Ident::new, ...), '
                     'whatever any call into Python returns or raises and whatever any Python string contains',
                assumptions=['pyo3, syn, quote, prettyplease and the standard library behave as their contracts in sa/models.py say',
                             'at most one failing Python call per path in quick (two in parts of thorough), at most two elements per Python list and one attribute per module or class',
                             'nested parsers are analysed on their own and appear in their callers as summaries returning either any item or an error',
                             'loops over the text of a docstring or of one annotation are followed for three to four rounds'],
                explanation='path-sensitive abstract interpretation of the compiled MIR of every function between a Python object and the bindings made of it (parsers, annotation '
                            'mapping, text handling, generators with symbolic names, entry points); an alternative path for every fallible call and every comparison of unknown text; '
                            'a reachable panic is reported with the calls that lead to it. Panic-capable sites in the engine: %s' % inv)


def inventory(P):
    import collections
    c = collections.Counter()
    for b in P.bodies.values():
        for blk in b['blocks'] or []:
            t = blk['t']
            if not t:
                continue
            if t['t'] == 'assert':
                c['assert'] += 1
            elif t['t'] == 'call' and t['f'].get('o') == 'const' and t['f']['c'].get('k') == 'fn':
                n = t['f']['c']['f']['name']
                last = n.rsplit('::', 1)[-1]
                if 'panicking' in n or last in ('unwrap', 'expect', 'unwrap_err', 'index', 'index_mut', 'drain', 'split_at', 'remove', 'swap_remove', 'split_off', 'new_raw') or n.endswith('Ident::new'):
                    c[last] += 1
    return ', '.join('%s %d' % x for x in c.most_common())
