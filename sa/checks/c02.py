"""C02 each generation switch controls exactly its own kind of output"""
from tree import *

GATES = {'imports': 'generate_imports', 'classes': 'generate_classes', 'type_vars': 'generate_type_vars', 'functions': 'generate_functions', 'properties': 'generate_properties'}
LETTER_KINDS = ('Import', 'TypeVar', 'Class', 'Function', 'Property')
ITEM_KW = ('fn', 'mod', 'struct', 'trait', 'enum', 'type', 'const', 'static')


def flags_cfg(P, flags, **kw):
    """configuration whose listed switches are unknown"""
    return struct(P, 'config::Config', lambda f: kw[f] if f in kw else S('cfg', f) if f in flags else Lst([]) if f == 'blocklist_names' else True if f.startswith('generate') and f != 'generate_dependencies' else False)


def ident(P, x):
    return mk_path(P, [x]).f[1].items[0]


def run(rep):
    P = program()
    M = contracts(P)
    gates(rep, P, M)
    docs(rep, P, M)
    parse_side(rep, P, M)
    independence(rep, P, M, rep.tier != 'quick')
    return dict(level='other',
                rule='On every abstract path of Codegen::generate, for every truth assignment of the switches, the items of a kind are emitted (each exactly once) if and only if the switch of that kind is on; prelude identifiers are listed if and only if preludes are on; methods and properties of a class do not depend on any switch. A documentation attribute that carries a docstring appears if and only if docs are on and the item has one, and it is attached to the item that the docstring belongs to. Module::parse visits submodules if and only if they are to be traversed.',
                assumptions=['contracts in sa/models.py', 'module shapes: two members of each kind; names are concrete'],
                explanation='Abstract interpretation of the MIR of Module/Class/Function/Property::generate, Codegen::generate and Module::parse with symbolic switches; queries over the emitted tokens.')


TREE = {'m': ('0', '1'), 'm.s0': ('s',), 'm.s0.t': ('t',), 'n': ('n',)}
PRELUDE = ('f0', 'c1', 'v0', 'p1')
LETTER = {'imports': 'i', 'classes': 'c', 'functions': 'f', 'properties': 'p', 'type_vars': 'v'}


def sample(P):
    def node(name):
        origins = [content(P, name + '.o' + t, '') for t in TREE[name]]
        subs = [node(x) for x in TREE if x.rpartition('.')[0] == name]
        c = content(P, name, TREE[name][0], subs + origins, shared=TREE[name][1:])
        c.f[fields(P, 'module::Module').index('prelude')] = Lst([ident(P, x) for x in PRELUDE] if name == 'm' else [])
        return c
    return [node(x) for x in TREE if '.' not in x]


class GatePolicy(GenPolicy):
    nattr = (0,)


def gates(rep, P, M):
    flags = sorted(set(GATES.values())) + ['generate_preludes', 'generate_docs', 'traverse_submodules']
    body = fn(P, 'Codegen::generate')

    def r(path):
        return Interp(P, path, M).call_body(body, [codegen_value(P, flags_cfg(P, flags), sample(P))])

    def j(L, path, o):
        if o[0] in ('undecided', 'stop'):
            return
        if not is_ok(o):
            L.violation('generation fails', '%s %s' % (o[0], o[1]))
            return
        val = {f: path.known(S('cfg', f)) for f in flags}
        out = out_tokens(o[1])
        ops = [a for a in opaques(out) if a.op == 'gen']
        L.count('assignments judged')
        for kind, (tail, vec) in SUBGEN.items():
            if vec not in LETTER:
                continue
            want = sorted('%s.%s%s' % (m, LETTER[vec], t) for m, ts in TREE.items() for t in ts)
            got = sorted('.'.join(str(x) for x in a.args[1].args) for a in ops if a.args[0] == kind)
            L.count('obligations')
            flag = GATES[vec]
            on = val[flag]
            if on is None:
                L.violation('%s are emitted or left out without regard to %s' % (vec, flag), '%s: %s' % (got, val))
            elif on and got != want:
                L.violation('%s are missing although they are enabled' % vec, 'emitted %s of %s with %s' % (got, want, {k: v for k, v in val.items() if v is not None}))
            elif not on and got:
                L.violation('%s are emitted although %s is off' % (vec, flag), '%s with %s' % (got, val))
            L.d['cov']['gate %s %s' % (vec, bool(on))] = 1
        mods = sorted(n for k, n in item_names(out, []) if k == 'mod' and n in ('m', 'n', 's0', 't', 'o0', 'o1'))
        L.count('obligations')
        if mods != ['m', 'n', 'o0', 'o1', 's0', 't']:
            L.violation('modules are missing or repeated', '%s with %s' % (mods, val))
        ids = {str(x[1]) if isinstance(x, tuple) else x for x in flat(out) if (isinstance(x, tuple) and x[0] == 'id') or isinstance(x, str)}
        listed = {x for x in PRELUDE if x in ids}
        on = val['generate_preludes']
        L.count('obligations')
        live = {x for x in PRELUDE if val[GATES[{'f': 'functions', 'c': 'classes', 'v': 'type_vars', 'p': 'properties'}[x[0]]]] is not False}
        if on is None or (on and not live <= listed) or (on is False and listed):
            L.violation('the prelude is not governed by generate_preludes', '%s listed with %s' % (sorted(listed), val))
        if listed - live:
            L.violation('the prelude lists items that are not generated', '%s with %s' % (sorted(listed - live), val))
        L.d['cov']['gate prelude %s' % bool(on)] = 1
        L.sample('%s -> %d items' % ({k: v for k, v in val.items() if v is False}, len(ops)))
    pol = gen_policy(P, False, kinds=tuple(LETTER_KINDS))
    explore_all(rep, 'Codegen::generate with unknown switches', r, pol, j)
    for v in GATES:
        for b in (True, False):
            if not rep.cov.pop('gate %s %s' % (v, b), 0):
                rep.violation('coverage: %s with the switch %s' % (v, 'on' if b else 'off'), '')
    for b in (True, False):
        if not rep.cov.pop('gate prelude %s' % b, 0):
            rep.violation('coverage: prelude %s' % b, '')

    # the methods and properties of a class are part of the class
    cgn = fn(P, 'class::Class::generate')

    def r2(path):
        q = lambda *x: P_(P, 'm.C' + ''.join('.' + y for y in x))
        c = klass(P, q(), methods=[function(P, q(n), k, q()) for n, k in (('f', 'InstanceMethod'), ('s', 'StaticMethod'), ('k', 'ClassMethod'), ('__init__', 'Constructor'), ('__call__', 'Callable'))],
                  properties=[prop(P, q('p')), prop(P, q('q'))])
        return Interp(P, path, M).call_body(cgn, [Ref([c]), Ref([flags_cfg(P, flags)]), Ref([HMap(False, 'Fx')])])

    def j2(L, path, o):
        if o[0] in ('undecided', 'stop'):
            return
        L.count('obligations')
        L.d['cov']['class body'] = 1
        if not is_ok(o):
            L.violation('Class::generate fails', '%s %s' % (o[0], o[1]))
            return
        ops = opaques(o[1].f[0])
        for op in ('gen', 'gentrait'):
            got = sorted(str(a.args[1].args[-1]) for a in ops if a.op == op)
            want = sorted(['f', 's', 'k', '__init__', '__call__', 'p', 'q'])
            if got != want:
                L.violation('methods or properties of a class depend on a switch or are not emitted exactly once', '%s: %s' % (op, got))
    explore_all(rep, 'Class::generate with unknown switches', r2, gen_policy(P, False, kinds=('Function', 'Property')), j2)
    if not rep.cov.pop('class body', 0):
        rep.violation('coverage: Class::generate', '')


def out_tokens(res):
    ts = res.f[0]
    return ts.t if isinstance(ts, TS) else ts


def doc_attachments(toks, out):
    """[(docstring term, keyword, name)] of all `#[doc = ..]` whose text is not constant"""
    pend = []
    i = 0
    toks = list(toks)
    while i < len(toks):
        t = toks[i]
        if t == '#' and i + 1 < len(toks) and isinstance(toks[i + 1], tuple) and toks[i + 1][0] == 'group' and toks[i + 1][1] == 'k':
            a = toks[i + 1][2]
            if a and a[0] == 'doc':
                pend += [x[1] for x in flat(a) if isinstance(x, tuple) and x[0] == 'lit' and isinstance(x[1], Sym)]
            i += 2
            continue
        if t in ITEM_KW and i + 1 < len(toks):
            n = toks[i + 1]
            n = n[1] if isinstance(n, tuple) and n[0] == 'id' else n
            if isinstance(n, (str, Sym)):
                for d in pend:
                    out.append((d, t, str(n)))
                pend = []
        elif pend and t in (';', ','):
            out += [(d, None, None) for d in pend]
            pend = []
        if isinstance(t, tuple) and t[0] == 'group':
            doc_attachments(t[2], out)
        i += 1
    out += [(d, None, None) for d in pend]
    return out


def docs(rep, P, M):
    body = fn(P, 'Codegen::generate')
    D = lambda n: S('doc', n)

    def sample_docs(has):
        q = lambda *x: P_(P, '.'.join(x))
        d = lambda n: D(n) if has else None
        method = lambda n, k: function(P, q('m', 'C', n), k, q('m', 'C'), doc=d('C.' + n))
        c = klass(P, q('m', 'C'), [method('f', 'InstanceMethod'), method('s', 'StaticMethod'), method('k', 'ClassMethod'), method('__init__', 'Constructor'), method('__call__', 'Callable')],
                  [prop(P, q('m', 'C', 'p'), doc=d('C.p'), sdoc=d('C.p setter')), prop(P, q('m', 'C', 'r'), mutable=False, doc=d('C.r'), sdoc=d('C.r setter'))], doc=d('C'))
        return module(P, q('m'), doc=d('m'), classes=[c, klass(P, q('m', 'E'), doc=d('E'))], functions=[function(P, q('m', 'g'), doc=d('g')), function(P, q('m', 'h'))],
                      properties=[prop(P, q('m', 'x'), 'Module', doc=d('x'), sdoc=d('x setter'))], submodules=[module(P, q('m', 'n'), doc=d('m.n'), functions=[function(P, q('m', 'n', 'g2'), doc=d('g2'))])])
    OWN = {'m': ('mod', 'm'), 'm.n': ('mod', 'n'), 'C': ('struct', 'C'), 'E': ('struct', 'E'), 'g': ('fn', 'g'), 'g2': ('fn', 'g2'), 'C.f': ('fn', 'f'), 'C.s': ('fn', 's'), 'C.k': ('fn', 'k'), 'C.__init__': ('fn', 'new'),
           'C.__call__': ('fn', 'call'), 'C.p': ('fn', 'p'), 'C.p setter': ('fn', 'set_p'), 'C.r': ('fn', 'r'), 'x': ('fn', 'x'), 'x setter': ('fn', 'set_x')}
    for has in (True, False):
        def r(path, has=has):
            return Interp(P, path, M).call_body(body, [codegen_value(P, flags_cfg(P, ['generate_docs']), [sample_docs(has)])])

        def j(L, path, o, has=has):
            if o[0] in ('undecided', 'stop'):
                return
            if not is_ok(o):
                L.violation('generation fails', '%s %s' % (o[0], o[1]))
                return
            on = path.known(S('cfg', 'generate_docs'))
            att = doc_attachments(out_tokens(o[1]), [])
            fnames = [n for n in item_names(out_tokens(o[1]), [])]
            L.d['cov']['docs %s %s' % (has, on)] = 1
            found = {}
            for t, kw, nm in att:
                ds = [x for x in subterms(t) if isinstance(x, Sym) and x.op == 'doc']
                if not ds:
                    continue
                L.count('obligations')
                x = ds[0].args[0]
                found.setdefault(x, []).append((kw, nm))
                if on is not True:
                    L.violation('documentation is emitted although docs are off', '%s on %s %s' % (x, kw, nm))
                if x not in OWN or (kw, nm) != OWN[x]:
                    L.violation('a docstring is attached to another item', 'docstring of %s on %s %s' % (x, kw, nm))
            if has and on is not False:
                for x, (kw, nm) in OWN.items():
                    L.count('obligations')
                    if (kw, nm) not in fnames:
                        L.violation('coverage: item is not generated', '%s %s' % (kw, nm))
                    elif x not in found:
                        L.violation('documentation is missing although docs are on', '%s %s' % (kw, nm))
            L.sample('docs on=%s docstrings=%s: %d attached' % (on, has, len(found)))
        explore_all(rep, 'documentation, docstrings ' + ('present' if has else 'absent'), r, gen_policy(P, False, kinds=()), j)
    for b in ('True True', 'True False'):
        if not rep.cov.pop('docs ' + b, 0):
            rep.violation('coverage: docs ' + b, '')
    for k in [k for k in rep.cov if k.startswith('docs ')]:
        rep.cov.pop(k)


def subterms(t):
    yield t
    if isinstance(t, Sym):
        for a in t.args:
            yield from subterms(a)


def item_names(toks, out):
    toks = list(toks)
    for i, t in enumerate(toks):
        if t in ITEM_KW and i + 1 < len(toks):
            n = toks[i + 1]
            n = n[1] if isinstance(n, tuple) and n[0] == 'id' else n
            if isinstance(n, (str, Sym)):
                out.append((t, str(n)))
        if isinstance(t, tuple) and t[0] == 'group':
            item_names(t[2], out)
    return out


def parse_side(rep, P, M):
    """Module::parse visits submodules iff traverse_submodules, records the index iff generate_preludes"""
    mp = fn(P, 'module::Module::parse')

    class Pol(ParsePolicy):
        nattr = (0,)
        opaque_names = {'extract_submodules': lambda I, a, ref, rt: ok(hset(P, I, ['s'])), 'extract_prelude': lambda I, a, ref, rt: ok(Lst([ident(P, 'q0')])), 'module::Module::parse': module_summary(P)}

        def opaque(self, I, name, body, args):
            for tail, h in self.opaque_names.items():
                if name.endswith('::' + tail) and (I.frames or tail != 'module::Module::parse'):
                    return h
            return None

        def outcomes(self, path, ev):
            return ('ok',)
    flags = ['traverse_submodules', 'generate_preludes']

    def r(path):
        return Interp(P, path, M).call_body(mp, [Ref([flags_cfg(P, flags)]), S('mod')])

    class AttrPol(Pol):
        # one attribute, which is a module that the listing of submodules does not know
        nattr = (1,)
        opaque_names = {'extract_submodules': lambda I, a, ref, rt: ok(hset(P, I, [])), 'extract_prelude': lambda I, a, ref, rt: ok(Lst([])), 'module::Module::parse': module_summary(P),
                        'is_attr_allowed': lambda I, a, ref, rt: True, 'AttributeVariant::determine': lambda I, a, ref, rt: ok(enum(P, 'AttributeVariant', 'Module'))}

    def j3(L, path, o):
        if o[0] in ('undecided', 'stop') or not is_ok(o):
            return
        if any(e.res == 'err' for e in path.events):
            return
        t = path.known(S('cfg', 'traverse_submodules'))
        visited = [e for e in path.events if e.kind == 'parse' and e.name == 'Module']
        L.count('obligations')
        L.d['cov']['submodules %s' % bool(visited)] = 1
        if visited and t is not True:
            L.violation('submodules are visited although they are not to be traversed', 'module attribute, %s %s' % (t, visited))
        if t is not False and not visited:
            L.violation('submodules are not visited although they are to be traversed', 'module attribute, %s %s' % (t, {str(k): v for k, v in path.facts.items()}))
    explore_all(rep, 'Module::parse with a module attribute', r, AttrPol(), j3)
    for b in (True, False):
        if not rep.cov.pop('submodules %s' % b, 0):
            rep.violation('coverage: Module::parse with a module attribute visited %s' % b, '')

    def j(L, path, o):
        if o[0] in ('undecided', 'stop') or not is_ok(o):
            return
        I = Interp(P, path, M)
        n = Node(I, P, o[1].f[0])
        t = path.known(S('cfg', 'traverse_submodules'))
        p = path.known(S('cfg', 'generate_preludes'))
        pkg = path.known(S('hasattr', S('mod'), '__path__'))
        subs = list_of(I, field(P, o[1].f[0], 'submodules', 'module::Module'))
        L.count('obligations', 2)
        visited = [e for e in path.events if e.kind == 'parse' and e.name == 'Module']
        if (visited or subs) and t is not True:
            L.violation('submodules are visited although they are not to be traversed', '%s %s' % (t, visited))
        if pkg is True and t is not False and not visited:
            L.violation('submodules are not visited although they are to be traversed', '%s %s' % (t, {str(k): v for k, v in path.facts.items()}))
        L.d['cov']['submodules %s' % bool(visited)] = 1
        if n.members['prelude'] and p is not True or (not n.members['prelude'] and p is not False):
            L.violation('the index of a module is recorded without regard to generate_preludes', '%s %s' % (p, n.members['prelude']))
    explore_all(rep, 'Module::parse with unknown switches', r, Pol(), j)
    for b in (True, False):
        if not rep.cov.pop('submodules %s' % b, 0):
            rep.violation('coverage: Module::parse with submodules %s' % b, '')


SUPPRESS = {'generate_docs': ('docstring', 'setter_docstring'), 'generate_preludes': ('prelude',), 'traverse_submodules': ('submodules',), 'generate_imports': ('imports',), 'generate_classes': ('classes',),
            'generate_type_vars': ('type_vars',), 'generate_functions': ('functions',), 'generate_properties': ('properties',)}


def canon(P, I, v, skip=()):
    """text of a parsed value, without the listed fields of its root"""
    if isinstance(v, Ref):
        return canon(P, I, I.deref(v))
    if isinstance(v, Adt):
        d = P.adts.get(v.p)
        if d:
            w = d['v'][v.v]
            return '%s{%s}' % (w['n'], ', '.join('%s: %s' % (f, canon(P, I, x)) for f, x in zip(w['f'], v.f) if f not in skip))
        return '%s#%s{%s}' % (v.p, v.v, ', '.join(canon(P, I, x) for x in v.f))
    if isinstance(v, Lst):
        return '[%s]' % ', '.join(canon(P, I, x) for x in v.items)
    if isinstance(v, Sym) and v.op == 'item':
        return 'item%r' % (v.args[:2],)
    return str(v)


def independence(rep, P, M, thorough):
    """what a parser returns does not depend on any switch, save for the part of the result that the switch itself removes"""
    import parsefn, checks.c11 as c11
    switches = sorted(SUPPRESS)
    cfg = lambda: Ref([flags_cfg(P, switches)])
    q = lambda *x: mk_path(P, ['m', 'C'] + list(x))

    class Cls(ParsePolicy):
        opaque_names = {'function::Function::parse': summary_parser(P, 'function::Function', 'Function')('Function'), 'property::Property::parse': summary_parser(P, 'property::Property', 'Property')('Property')}

        def outcomes(self, path, ev):
            return ('ok',)

    class Mod(Cls):
        opaque_names = dict(Cls.opaque_names, **{'class::Class::parse': summary_parser(P, 'class::Class', 'Class')('Class'), 'extract_submodules': lambda I, a, ref, rt: ok(hset(P, I, ['s'])),
                                                 'extract_prelude': lambda I, a, ref, rt: ok(Lst([ident(P, 'q0')])), 'is_attr_allowed': lambda I, a, ref, rt: True, 'module::Module::parse': module_summary(P)})
    jobs = []
    for owner in ('Module', 'Class'):
        jobs.append(('Property::parse ' + owner, 'property::Property::parse', c11.PropPolicy, 2, lambda owner=owner: [cfg(), Ref([S('p')]), q(S('nm', 'p')), enum(P, 'property::PropertyOwner', owner)]))
    for what, name, typ in parsefn.parse_cases(P):
        if thorough or what in ('Function', 'Unknown'):
            jobs.append(('Function::parse ' + what, 'function::Function::parse', parsefn.FnPolicy, 1, lambda name=name, typ=typ: [cfg(), Ref([S('f')]), models.clone(None, name), typ()]))
    jobs.append(('Class::parse', 'class::Class::parse', Cls, 1, lambda: [cfg(), Ref([S('cls')]), q()]))
    jobs.append(('Module::parse', 'module::Module::parse', Mod, 1, lambda: [cfg(), S('mod')]))
    for what, tail, pol, n, args in jobs:
        body = fn(P, tail)
        p = pol()
        p.maxlen = n

        def r(path, body=body, args=args):
            return Interp(P, path, M).call_body(body, args())

        def j(L, path, o, what=what):
            if o[0] in ('undecided', 'stop'):
                return
            L.count('parser paths judged for independence of the switches')
            sw = {f: path.known(S('cfg', f)) for f in switches}
            sw = {f: x for f, x in sw.items() if x is not None}
            L.d['cov']['reach'] = 1
            if what == 'Module::parse':
                sw.pop('traverse_submodules', 0), sw.pop('generate_preludes', 0)       # judged by parse_side
            if not sw:
                return
            I = Interp(P, path, M)
            good = is_ok(o)
            full = {f: canon(P, I, o[1].f[0], sum([SUPPRESS[g] for g in [f]], ())) if good else o[0] for f in sw}
            dec = {}
            for c, _, l in path.trace:
                l = str(l)
                if not any(f in l for f in switches):
                    dec.setdefault(l, []).append(c)
            L.d.setdefault('out', []).append((sw, dec, full))
        rep.out.clear()
        explore_all(rep, 'switches in ' + what, r, p, j, budget_s=120)
        if not rep.cov.pop('reach', 0):
            rep.violation('coverage: no path of ' + what, '')
        byf = {}
        for sw, dec, full in rep.out:
            for f in sw:
                byf.setdefault((f, sw[f]), []).append((sw, dec, full))
        for f in switches:
            for a in byf.get((f, True), [])[:400]:
                for b in byf.get((f, False), [])[:400]:
                    if any(a[0][g] != b[0][g] for g in a[0] if g in b[0] and g != f) or any(b[1].get(l, c) != c for l, c in a[1].items()):
                        continue
                    rep.count('obligations')
                    if a[2][f] != b[2][f]:
                        rep.violation('%s depends on %s beyond what that switch removes' % (what, f), 'with it on %s, off %s' % (a[2][f][:400], b[2][f][:400]))
        rep.out.clear()


def hset(P, I, names):
    h = HMap(True, 'Fx')
    for n in names:
        h.keys.append(ident(P, n))
    return h
