"""C19 references between generated modules resolve to the intended item"""
import itertools, re
from tree import P_, TreePolicy
from calls import *

# ------------------------------------------------------------------ module trees: (classes, type variables, functions, {submodule: node}); the first key is a requested module
DEEP = {'pkg': (['A', 'Same'], ['TV'], ['fn'], {
            'sub': (['B', 'Same', 'match', 'Bee'], [], ['fn'], {'deep': (['C', 'Same'], [], [], {'deeper': (['D'], ['TW'], ['fn'], {})}), 'pkg': (['E'], [], ['gn'], {})}),
            'type': (['F', 'impl'], [], ['gn'], {'mod': (['G'], [], ['fn'], {'pkg': (['H'], [], [], {})})}),
            'subway': (['W', 'B'], [], ['fn'], {}),
            'std': (['I'], [], [], {'option': (['J'], [], [], {})})}),
        'other': (['K', 'Same'], [], ['fn'], {'sub': (['B', 'L'], ['TX'], [], {'sub': (['B'], [], [], {})})}),
        'sub': (['B'], [], [], {})}
# imports of a module of DEEP: (where, name there, origin)
IMPORTS = [('pkg', 'B', 'pkg.sub.B'), ('pkg', 'Renamed', 'pkg.sub.Same'), ('pkg', 'C', 'pkg.sub.deep.C'), ('pkg', 'hn', 'pkg.sub.fn'), ('pkg', 'deep', 'pkg.sub.deep'), ('pkg', 'trait', 'pkg.type.mod'),
           ('pkg', 'dyn', 'pkg.type.impl'), ('pkg', 'KK', 'other.K'), ('pkg', 'L', 'other.sub.L'), ('pkg', 'osub', 'other.sub'), ('pkg', 'top', 'other'), ('pkg', 'TW', 'pkg.sub.deep.deeper.TW'),
           ('pkg.sub', 'C', 'pkg.sub.deep.C'), ('pkg.sub', 'DD', 'pkg.sub.deep.deeper.D'), ('pkg.sub', 'A', 'pkg.A'), ('pkg.sub', 'root', 'pkg'), ('pkg.sub', 'F', 'pkg.type.F'), ('pkg.sub', 'gn', 'pkg.sub.pkg.gn'),
           ('pkg.sub', 'me', 'pkg.sub'), ('pkg.sub.deep', 'up', 'pkg.sub'), ('pkg.sub.deep', 'B', 'pkg.sub.B'), ('pkg.sub.deep', 'D', 'pkg.sub.deep.deeper.D'), ('pkg.sub.deep', 'KK', 'other.K'),
           ('pkg.sub.deep.deeper', 'fn2', 'pkg.sub.deep.deeper.fn'), ('pkg.sub.deep.deeper', 'fn3', 'pkg.sub.fn'), ('pkg.type', 'fn', 'pkg.type.mod.fn'), ('pkg.type', 'pkg', 'pkg.type.mod.pkg'),
           ('pkg.sub', 'W', 'pkg.subway.W'), ('pkg.subway', 'C', 'pkg.sub.deep.C'), ('pkg.subway', 'pk', 'pkg'), ('pkg.type', 'B', 'sub.B'), ('other', 'B', 'other.sub.sub.B'), ('other', 'ob', 'other.sub.B'), ('other', 'pb', 'pkg.sub.B'), ('other', 'nothing', 'other.sub.missing'), ('other', 'gone', 'elsewhere.X'),
           ('other.sub', 'tb', 'other.sub.sub.B'), ('other.sub', 'T2', 'other.sub.TX'), ('sub', 'A', 'pkg.A'), ('sub', 'B2', 'pkg.sub.B'), ('sub', 'pk', 'pkg'), ('pkg', 'JJ', 'pkg.std.option.J'), ('pkg', 'gone1', 'pkg.std.option.fn'), ('pkg', 'gone2', 'pkg.sub.deep.A'), ('pkg', 'gone3', 'pkg.std.sub'), ('pkg', 'gone4', 'pkg.std.TV'),
           ('other', 'gone5', 'other.pkg.sub'), ('pkg', 'opt', 'pkg.std.option')]
KIND = {'classes': 'Struct', 'type_vars': 'Struct', 'functions': 'Fn', 'submodules': 'Mod'}


def walk(tree, pre=()):
    for n, (cl, tv, fs, subs) in tree.items():
        me = pre + (n,)
        yield '.'.join(me), cl, tv, fs
        yield from walk(subs, me)


def rs(dotted):
    return '::'.join(env.rs_name(None, x) for x in dotted.split('.'))


class Tree:
    """the values of the module tree, with the imports `imps` and a function, a method and an attribute per reference"""
    def __init__(self, P, tree, imps, refs, prelude=()):
        self.P, self.tree, self.imps, self.refs, self.prelude = P, tree, imps, refs, prelude
        self.items = {}
        for m, cl, tv, fs in walk(tree):
            if '.' in m:
                self.items[m] = 'Mod'
            self.items.update({m + '.' + x: 'Struct' for x in cl})
            self.items.update({m + '.' + x: 'TypeVar' for x in tv})
            self.items.update({m + '.' + x: 'Fn' for x in fs})
        self.roots = {m for m in tree}

    def build(self, I):
        new = fn(self.P, 'import::Import::new')
        return [self.node(I, new, n, x) for n, x in self.tree.items()]

    def node(self, I, new, name, x):
        P = self.P
        cl, tv, fs, subs = x
        ty = lambda t: enum(P, 'typing::Type', 'Other', t)
        path = P_(P, name)
        refs = self.refs(name)
        funcs = [function(P, P_(P, name + '.' + f)) for f in fs]
        funcs += [function(P, P_(P, '%s.r%d' % (name, k)), 'Function', None, [param(P, 'x', 'PositionalOrKeyword', ann=ty(t))], ty(t)) for k, (t, _) in enumerate(refs)]
        host = P_(P, name + '.Host')
        meth = [function(P, P_(P, '%s.Host.r%d' % (name, k)), 'InstanceMethod', host, [param(P, 'x', 'PositionalOrKeyword', ann=ty(t))], ty(t)) for k, (t, _) in enumerate(refs) if self.has(k, 'mr')]
        attrs = [prop(P, P_(P, '%s.Host.a%d' % (name, k)), 'Class', True, ty(t), ty(t)) for k, (t, _) in enumerate(refs) if self.has(k, 'ma')]
        props = [prop(P, P_(P, '%s.a%d' % (name, k)), 'Module', True, ty(t), ty(t)) for k, (t, _) in enumerate(refs) if self.has(k, 'a')]
        imps = [I.call_body(new, [P_(P, o), P_(P, name + '.' + n)]) for m, n, o in self.imps if m == name]
        return module(P, path, classes=[klass(P, P_(P, name + '.' + c)) for c in cl] + ([klass(P, host, meth, attrs)] if refs else []), type_vars=[typevar(P, P_(P, name + '.' + v)) for v in tv],
                      functions=funcs, properties=props, imports=imps, submodules=[self.node(I, new, name + '.' + n, y) for n, y in subs.items()],
                      prelude=self.prelude if name == 'pkg' else ())

    @staticmethod
    def has(k, what):
        """which references are made by other bindings than functions: every 4th, each kind a different one"""
        what = what.replace('set_', '').rstrip('0123456789')
        return k % 4 == {'mr': 0, 'ma': 1, 'a': 2, 'r': k % 4}[what]

    def kind(self, dotted):
        return 'Mod' if dotted in self.roots else self.items.get(dotted)

    # -------------------------------------------------------------- expectation
    def reexports(self):
        """{(module, name): item} that have to be offered by the generated code, and nothing else"""
        out = {}
        for m, n, o in self.imps:
            if o == m + '.' + n:
                continue
            if (o == m or o.startswith(m + '.')) and self.kind(o) is not None:
                out[m, n] = o
        return out


def gen(rep, P, M, trees):
    """Codegen::generate on every tree"""
    body = fn(P, 'Codegen::generate')
    pol = gen_policy(P, False, kinds=())
    pol.max_steps = 6000000

    def r(path):
        i = path.split(tuple(range(len(trees))), 'tree')
        path.memo['tree'] = i
        I = Interp(P, path, M)
        mods = trees[i][1].build(I)
        return I.call_body(body, [codegen_value(P, cfg_with(P), mods, None)])

    def j(L, path, o):
        i = path.memo.get('tree')
        if is_ok(o):
            imps = tuple(sorted({(str(e.args[0]), e.res) for e in path.events if e.kind == 'import'}))
            L.d.setdefault('out', []).append((i, imps, Witness('x').src(o[1].f[0].t)))
        elif o[0] == 'panic' or is_err(o):
            L.violation('Codegen::generate fails', '%s: %s' % (trees[i][0], o[1]))
    explore_all(rep, 'Codegen::generate', r, pol, j)
    outs, seen = [], set()
    for i, imps, src in sorted(rep.out):
        if i not in seen:
            outs.append((i, imps, src))
            seen.add(i)
    rep.out[:] = []
    for i, (label, t) in enumerate(trees):
        if i not in seen:
            rep.violation('coverage: no output for ' + label, '')
    return outs


def last_local(Q, b, k):
    l = b['locals'][k]
    return Q.types[l if isinstance(l, int) else l['t']]['s']


def inner(t):
    """the class a generated signature mentions: the last argument of Bound<'_, X>"""
    m = re.search(r"pyo3::instance::Bound<'_, ([^<>]*)>", t)
    return m[1] if m else None


def resolve(rep, trees, outs):
    W = Witness('c19')
    for i, imps, src in outs:
        W.add(src, i)
    for k, msgs in W.compile().items():
        rep.violation('a generated reference does not resolve', '%s: %s' % (trees[W.items[k][1]][0], '; '.join(msgs[:2])[:400]))
    Q = W.prog
    for k, (_, i) in enumerate(W.items):
        if k in W.errors:
            continue
        label, t = trees[i]
        pre = 'vpwitness_c19::w%d::' % k
        full = lambda d: 'pyo3::types::any::PyAny' if t.items.get(d) == 'TypeVar' else pre + rs(d)
        # type references
        G = generated(Q, k)
        for m, cl, tv, fs in walk(t.tree):
            refs = t.refs(m)
            host = rs(m + '.Host')
            for n, (text, target) in enumerate(refs):
                for key, where in (((rs(m), 'fn', 'r%d' % n), 'function'), ((rs(m), 'fn', 'a%d' % n), 'attribute'), ((rs(m), 'fn', 'set_a%d' % n), 'attribute (setter)'),
                                   (('trait ' + host, 'trait', 'r%d' % n), 'method'), (('trait ' + host, 'trait', 'a%d' % n), 'property'), (('trait ' + host, 'trait', 'set_a%d' % n), 'property (setter)')):
                    if not t.has(n, key[2]) and key[2][0] != 'r' or key[1] == 'trait' and not t.has(n, 'm' + key[2]):
                        continue
                    bs = G.get((key[0].replace('trait ', ''), key[1], key[2]), [])
                    if len(bs) != 1:
                        rep.violation('a binding is not generated exactly once', '%s: %s (%d times)' % (label, key, len(bs)))
                        continue
                    rep.count('obligations')
                    rep.count('type references resolved')
                    got = {inner(x) for x in [last_local(Q, bs[0], 0)] + argnames(Q, bs[0]) if 'pyo3::marker::Python' not in x} - {None}
                    if key[1] == 'trait':
                        got -= {pre + host}
                        if target == m + '.Host':
                            continue
                    if target is None:
                        got -= {'pyo3::types::any::PyAny', 'pyo3::PyAny'}
                        if got:
                            rep.violation('a type reference resolves to an item it does not mean', '%s: %s %s of %s, annotated %r, refers to %s' % (label, where, key[2], m, text, sorted(got)))
                    elif got != {full(target)}:
                        rep.violation('a type reference resolves to another item', '%s: %s %s of %s, annotated %r, refers to %s instead of %s' % (label, where, key[2], m, text, sorted(got), target))
        # re-exports
        want = {(pre + rs(m), n): (pre + rs(o), t.kind(o)) for (m, n), o in t.reexports().items()}
        got = {}
        for mod, name, kind, item in Q.reexports:
            if (mod + '::').startswith(pre):
                got.setdefault((mod, name), set()).add((item, kind))
        for key, item in sorted(want.items()):
            rep.count('obligations')
            rep.count('re-exports resolved')
            g = got.pop(key, set())
            if not g:
                rep.violation('a re-export is missing', '%s: %s does not offer %s, which is %s' % (label, key[0][len(pre):], key[1], item[0][len(pre):]))
            elif not all(x[0] == item[0] for x in g):
                rep.violation('a re-export resolves to another item', '%s: %s::%s is %s instead of %s' % (label, key[0][len(pre):], key[1], sorted(x[0] for x in g), item[0][len(pre):]))
        for key, item in sorted(got.items()):
            if key[0].rsplit('::', 1)[-1].startswith('call') and label.startswith('index'):
                continue
            rep.violation('an item is re-exported that is not of the own subtree', '%s: %s offers %s, which is %s' % (label, key[0][len(pre):], key[1], sorted(x[0] for x in item)))


class NamePolicy(ParsePolicy):
    """names of Python items: none of them is spelled like the segments of a relative path"""
    def theory(self, path, t):
        if t.op == 'eq' and any(isinstance(x, str) and x in ('super', 'self', 'crate', 'Self', '') for x in t.args):
            return False
        return ParsePolicy.theory(self, path, t)


def same(path, a, b):
    return a == b or path.known_eq(a, b) is True


def from_there(segs, here):
    """the item that a relative path names by the rules of Rust, written in module `here`; None: it names nothing"""
    cur, lead = list(here), True
    for x in segs:
        if x in ('super', 'self', 'crate'):
            if not lead or x == 'crate':
                return None
            if x == 'super':
                if not cur:
                    return None
                cur.pop()
        else:
            lead = False
            cur.append(x)
    return cur


def names_of(I, p):
    """segments of a path: Rust keywords of relative paths, or names"""
    out = []
    for x in list_of(I, I.deref(field(I.P, I.deref(p), 'segments', 'path::Path'))):
        n = I.deref(x).f[0]
        out.append(n if n in ('super', 'self', 'crate') else env.py_name(n))
    return out


def symbolic(rep, P, M, depth):
    """Path::relative_to and the classification of imports, over names that are equal or not in every way"""
    rel = fn(P, 'path::Path::relative_to')
    new = fn(P, 'import::Import::new')
    names = lambda k, n: [S('nm', '%s%d' % (k, x)) for x in range(n)]

    def r(path):
        what = path.split(('use', 'type', 'import'), 'what')
        a, b = names('a', path.split(tuple(range(1, depth + 1)), 'from')), names('b', path.split(tuple(range(1, depth + 2)), 'to'))
        path.memo['job'] = (what, a, b)
        I = Interp(P, path, M)
        if what == 'import':
            v = I.call_body(new, [mk_path(P, b), mk_path(P, a)])
            path.memo['got'] = vname_(P, field(P, I.deref(v), 'import_type', 'import::Import'))
        else:
            v = I.call_body(rel, [Ref([mk_path(P, a)]), Ref([mk_path(P, b)]), what == 'use'])
            path.memo['got'] = names_of(I, v)
        return v

    def j(L, path, o):
        if 'job' not in path.memo or o[0] in ('undecided', 'stop'):
            return
        what, a, b = path.memo['job']
        L.count('obligations')
        w = '%s, written in %s: %s' % (what, '.'.join(map(repr, a)), '.'.join(map(repr, b)))
        if o[0] == 'panic':
            L.violation('the path between two items panics', '%s: %s' % (w, o[1]))
            return
        got = path.memo['got']
        eq = [same(path, x, y) for x, y in zip(a, b)]
        facts = ', '.join('%s=%s' % (x, y) for x, y, e in zip(a, b, eq) if e)
        if what == 'import':
            L.count('classifications of imports over symbolic names')
            # `a` is the name that Python gives to `b`; a path of the interpretation that leaves an equality open has not looked at it
            open_ = [k for k in range(min(len(a), len(b))) if not eq[k] and path.known_eq(a[k], b[k]) is None]
            inside = len(a) > 1 and len(b) >= len(a) - 1 and all(eq[:len(a) - 1])
            if inside != (got == 'SubmoduleReexport') and not (inside is False and open_ and open_[0] < len(a) - 1 and all(eq[:open_[0]])):
                L.violation('an import is classified as a re-export of the own subtree although it is none, or the other way round', '%s [%s]: %s' % (w, facts, got))
            elif got == 'SubmoduleReexport' and not inside:
                L.violation('an import is classified as a re-export of the own subtree although it is none, or the other way round', '%s [%s]: %s' % (w, facts, got))
            return
        if what == 'use' and not (len(b) >= len(a) and all(eq)) or what == 'type' and len(b) <= len(a) and all(eq):
            return      # only the own subtree is re-exported, and a module is no type
        L.count('relative paths over symbolic names')
        res = from_there(got, a)
        ok_ = res is not None and len(res) == len(b) and all(same(path, x, y) for x, y in zip(res, b))
        if ok_ and what == 'use' and (not got or got[-1] in ('super', 'self')):
            ok_ = False
        if not ok_:
            L.violation('a relative path leads to another item', '%s [%s]: %s' % (w, facts, '::'.join(map(repr, got))))
    explore_all(rep, 'relative paths', r, NamePolicy(), j)


def adopted(rep, P, M):
    """Module::parse: an item imported over a submodule is generated under the name that Python gives it"""
    mp = fn(P, 'module::Module::parse')
    kinds = {'imports': 'import::Import', 'classes': 'class::Class', 'type_vars': 'type_var::TypeVar', 'functions': 'function::Function', 'properties': 'property::Property'}
    make = {'imports': lambda q: import_(P, P_(P, 'x.y'), q), 'classes': lambda q: klass(P, q), 'type_vars': lambda q: typevar(P, q), 'functions': lambda q: function(P, q), 'properties': lambda q: prop(P, q, 'Module')}

    def sub(kind):
        def h(I, a, ref, rt):
            obj = [o for o in map(I.deref, a) if isinstance(o, Sym)][0]
            I.event('parse', 'Module', (obj,)).res = 'ok'
            q = lambda: mk_path(P, [S('nm', 'om'), S('nm', 'on')])
            return ok(module(P, mk_path(P, [S('modname', obj)]), **{kind: [make[kind](q())]}))
        return h
    for kind, tail in kinds.items():
        class Pol(ParsePolicy):
            nattr = (1,)
            opaque_names = {'extract_submodules': lambda I, a, ref, rt: ok(idents(P, ['s'])), 'extract_prelude': lambda I, a, ref, rt: ok(Lst([])), 'module::Module::parse': sub(kind),
                            'is_attr_allowed': lambda I, a, ref, rt: True, 'AttributeVariant::determine': lambda I, a, ref, rt: ok(enum(P, 'AttributeVariant', 'Import'))}

            def outcomes(self, path, ev):
                return ('ok',)

        def r(path):
            return Interp(P, path, M).call_body(mp, [Ref([cfg_with(P)]), S('mod')])

        def j(L, path, o, kind=kind, tail=tail):
            if o[0] in ('undecided', 'stop') or not is_ok(o):
                return
            I = Interp(P, path, M)
            m = o[1].f[0]
            mod = path_names(I, field(P, m, 'name', 'module::Module'))
            attr = S('str', S('pyel', S('dir', S('mod')), 0))
            over = path.known(mk_eq(attr, 's'))
            L.count('obligations')
            got = [(k, path_names(I, field(P, I.deref(x), 'target' if k == 'imports' else 'name', kinds[k]))) for k in kinds for x in list_of(I, field(P, m, k, 'module::Module'))]
            L.d['cov']['over %s %s' % (over, bool(got))] = 1
            for k, q in got:
                n = q[-1]
                if list(q[:-1]) != list(mod) or not (n is attr or over and n == 's' or path.val(n) == path.val(attr)):
                    L.violation('an item imported over a submodule is not generated under the name that Python gives it' if over else 'an import is not generated under the name that Python gives it',
                                '%s: %s instead of %s.%s' % (k, '.'.join(map(repr, q)), '.'.join(map(repr, mod)), 's' if over else attr))
            subs = list_of(I, field(P, m, 'submodules', 'module::Module'))
            if over and subs and any(True for k, q in got):
                L.violation('both a submodule and the item imported over it are generated', str(got))
        explore_all(rep, 'imports over a submodule, %s' % kind, r, Pol(), j)
        for k in ('True True', 'False True'):
            if not rep.cov.pop('over ' + k, 0):
                rep.violation('coverage: Module::parse with an import over a submodule (%s, %s)' % (kind, k), '')
        for k in [k for k in rep.cov if k.startswith('over ')]:
            rep.cov.pop(k)


def idents(P, names):
    h = HMap(True, 'Fx')
    h.keys += [mk_path(P, [n]).f[1].items[0] for n in names]
    return h


def vname_(P, v):
    return [x['n'] for x in P.adts[v.p]['v']][v.v]


def run(rep):
    P = program()
    M = contracts(P)
    symbolic(rep, P, M, 3 if rep.tier == 'quick' else 5)
    adopted(rep, P, M)
    types = [m + '.' + x for m, cl, tv, fs in walk(DEEP) for x in cl + tv]
    odd = ['nowhere.X', 'pkg', 'pkg.sub', 'pkg.sub.fn', 'pkg.sub.BB', 'pkg.sub.B.Inner', 'ub.B', 'B.sub', 'pkg.B', 'Same.Same', 'super.pkg.A']

    def spelled(m):
        """the spellings by which a module knows the types that it imports, and spellings that mean no type"""
        out = []
        for m2, n, o in IMPORTS:
            if m2 == m:
                out += [(n + t[len(o):], t) for t in types if t == o or t.startswith(o + '.')]
        mine = {x for x, _ in out}
        return out + [(x, None) for x in odd if x not in mine] + [(t + '[int]', t) for t in types[::5]]
    trees = [('full paths', Tree(P, DEEP, [], lambda m: [(t, t) for t in types])),
             ('imported names', Tree(P, DEEP, IMPORTS, spelled))]
    if rep.tier != 'quick':
        trees.append(('full paths next to imports', Tree(P, DEEP, IMPORTS, lambda m: [(t, t) for t in types])))
        trees.append(('full paths in attributes', Tree(P, DEEP, [], lambda m: [(t, t) for t in types[1:] + types[:1]])))
    resolve(rep, trees, gen(rep, P, M, trees))
    return dict(
        level='other',
        rule='A relative path leads, by Rust\'s rules from the module it is written in, to the item it was made for, for names that are equal or different in every combination; an import counts as a re-export of the own '
             'subtree exactly if its origin starts with the path of the importing module. In generated module trees every annotation that names a class or type variable of the tree, by its full path or by a name under '
             'which the module imports it, resolves (as the compiler sees it) to that item, other annotations to no item of the tree, and the public re-exports of every module are exactly the imports from its own subtree, '
             'under the names Python gives them.',
        assumptions=['the module tree is bounded: module paths of at most %d segments (symbolic), trees of 18 modules with repeated, nested and keyword names (compiled)' % (3 if rep.tier == 'quick' else 5),
                     'a full path takes precedence over an imported name that is spelled the same', 'all type variables are the same Rust type, so that one cannot be told from another',
                     'names of items are not spelled super, self, crate or Self (such items are left out or escaped, C08)'],
        explanation='Path::relative_to and Import::new are interpreted over symbolic names; Codegen::generate is interpreted on module trees, its output is compiled, and the resolved types of the signatures and the resolved '
                    're-exports of each module (rustc name resolution, read by the driver) are compared with the intended items.')
