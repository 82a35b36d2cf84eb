"""C03 merging duplicate modules loses no member"""
from tree import *


def cases(P, tier):
    c = lambda *a, **k: content(P, *a, **k)
    out = {
        'same module twice': lambda: [c('a', '0'), c('a', '1')],
        'same module three times, apart': lambda: [c('a', '0'), c('b', '1'), c('a', '2'), c('c', '3'), c('a', '4')],
        'equal members in both copies': lambda: [c('a', '0', shared=['s']), c('a', '1', shared=['s'])],
        'identical copies': lambda: [c('a', '', shared=['s']), c('a', '', shared=['s'])],
        'different submodules': lambda: [c('a', '0', [c('a.x', '1')]), c('a', '2', [c('a.y', '3')])],
        'same submodule': lambda: [c('a', '0', [c('a.x', '1')]), c('a', '2', [c('a.x', '3')])],
        'same and different submodules': lambda: [c('a', '0', [c('a.x', '1'), c('a.y', '2')]), c('a', '3', [c('a.z', '4'), c('a.x', '5')])],
        'three levels': lambda: [c('a', '0', [c('a.x', '1', [c('a.x.p', '2')])]), c('a', '3', [c('a.x', '4', [c('a.x.p', '5'), c('a.x.q', '6')])])],
        'submodule also requested': lambda: [c('a', '0', [c('a.x', '1', [c('a.x.p', '2')])]), c('a.x', '3', [c('a.x.q', '4')])],
        'submodule requested before its parent': lambda: [c('a.x', '3', [c('a.x.q', '4')]), c('a', '0', [c('a.x', '1', [c('a.x.p', '2')])])],
        'deep request and parent': lambda: [c('a.x.p', '0'), c('a', '1', [c('a.x', '2', [c('a.x.p', '3')])]), c('a.x', '4')],
        'two duplicated groups': lambda: [c('b', '0'), c('a', '1'), c('b', '2'), c('a', '3')],
        'two duplicated groups of submodules': lambda: [c('a', '', [c('a.x', '0'), c('a.y', '1')]), c('a', '', [c('a.y', '2'), c('a.x', '3')])],
        'siblings of one parent': lambda: [c('a.x', '0'), c('a.y', '1'), c('a.z', '2')],
        'only the second copy has members': lambda: [c('a', ''), c('a', '1', [c('a.x', '2')])],
        'only the first copy has members': lambda: [c('a', '0', [c('a.x', '1')]), c('a', '')],
        'placeholder between': lambda: [c('a.x', '0'), c('a', '1'), c('a.x', '2')],
        'no duplicates': lambda: [c('a', '0', [c('a.x', '1'), c('a.b', '2')]), c('x', '3', [c('x.a', '4')])],
        'same last segment in different parents': lambda: [c('a', '0', [c('a.x', '1')]), c('b', '2', [c('b.x', '3')])],
    }
    # members with names that are special elsewhere: those of their module, its parent, its submodules; private, dunder and keyword names
    def special(name, i, subs=()):
        ns = [name.split('.')[-1], 'a', 'x', '_p', '__call__', 'match', 'self', 'T', 'A'][i::2]
        q = lambda n: P_(P, '%s.%s' % (name, n))
        return module(P, P_(P, name), prelude=ns, submodules=list(subs), classes=[klass(P, q(n)) for n in ns], functions=[function(P, q(n)) for n in ns], properties=[prop(P, q(n), 'Module') for n in ns],
                      type_vars=[typevar(P, q(n)) for n in ns], imports=[import_(P, P_(P, 'a.x.' + n), q(n)) for n in ns])
    out['special names'] = lambda: [special('a', 0), special('a', 1)]
    out['special names in submodules'] = lambda: [special('a', i, [special('a.x', 1 - i), special('a.a', i)]) for i in (0, 1)]
    out['special names, submodules in one copy'] = lambda: [special('a', 0, [special('a.x', 1)]), special('a', 1), special('a.x', 0)]
    # all arrangements of duplicates at the top level and one level below
    import itertools
    for n in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
        for seq in itertools.product('abc', repeat=n):
            first = list(dict.fromkeys(seq))
            if first == sorted(first) or tier != 'quick':
                out['requested ' + ' '.join(seq)] = lambda seq=seq: [c(x, str(i)) for i, x in enumerate(seq)]
    sets = [s for n in range(1, 4) for s in itertools.permutations('xyz', n)]
    for s1 in sets:
        for s2 in sets:
            if tier != 'quick' or (s1 == tuple(sorted(s1)) and len(s1) + len(s2) > 2):
                out['submodules %s and %s' % (''.join(s1), ''.join(s2))] = lambda s1=s1, s2=s2: [c('a', '0', [c('a.' + x, '1' + x) for x in s1]), c('a', '2', [c('a.' + x, '3' + x) for x in s2])]
    out['many duplicated submodules'] = lambda: [c('a', str(i), [c('a.%s%d' % (x, k), '%d%s%d' % (i, x, k)) for x in 'xyz' for k in range(4)]) for i in range(3)]
    out['many duplicated modules'] = lambda: [c('%s%d' % (x, k), '%d%s%d' % (i, x, k)) for i in range(3) for x in 'xyz' for k in range(4)]
    out['duplicated submodules of duplicated submodules'] = lambda: [c('a', str(i), [c('a.' + x, '%d%s' % (i, x), [c('a.%s.%s' % (x, y), '%d%s%s' % (i, x, y)) for y in 'pqrst'[i:]]) for x in 'wxyz']) for i in range(3)]
    if tier == 'thorough':
        out.update({
            'four levels': lambda: [c('a', '0', [c('a.x', '1', [c('a.x.p', '2', [c('a.x.p.q', '3')])])]), c('a', '4', [c('a.x', '5', [c('a.x.p', '6', [c('a.x.p.q', '7'), c('a.x.p.r', '8')])])])],
            'three copies of a submodule': lambda: [c('a', str(i), [c('a.x', 's%d' % i), c('a.y%d' % i, 'u%d' % i)]) for i in range(3)],
            'four copies in all orders': lambda: [c(n, t) for n, t in (('b', '0'), ('a', '1'), ('c', '2'), ('a', '3'), ('b', '4'), ('c', '5'), ('a', '6'))],
            'nested duplicates in nested duplicates': lambda: [c('a', str(i), [c('a.x', 'x%d' % i, [c('a.x.p', 'p%d' % i, shared=['s'])], shared=['s'])], shared=['s']) for i in range(3)],
        })
    return out


def expected(P, M, mk):
    """{module name: {kind: set of members}} of the given trees"""
    I = Interp(P, Path([], TreePolicy()), M)
    exp = {}
    for m in mk():
        n = Node(I, P, m)
        nm = n.name.split('.')
        for k in range(1, len(nm)):
            exp.setdefault('.'.join(nm[:k]), {})
        for x in n.walk():
            for k, v in x.members.items():
                exp.setdefault(x.name, {}).setdefault(k, set()).update(v)
    return exp


def run(rep):
    P = program()
    M = contracts(P)
    for what, mk in cases(P, rep.tier).items():
        exp = expected(P, M, mk)

        def judge(L, path, o, what=what, exp=exp):
            if o[0] in ('undecided', 'stop'):
                return
            if not is_ok(o):
                L.violation('generation fails when merging', '%s: %s %s' % (what, o[0], o[1]))
                return
            rs = roots_of(path)
            L.count('merges judged')
            shown = '; '.join(r.show() for r in rs)
            L.sample('%s -> %s' % (what, shown))

            def level(nodes, prefix):
                names = [n.name for n in nodes]
                L.count('obligations')
                want = {m for m in exp if m.rpartition('.')[0] == prefix}
                for m in sorted(want):
                    if names.count(m) == 0:
                        L.violation('merging loses a module', '%s: %s is missing in %s' % (what, m, shown))
                    if names.count(m) > 1:
                        L.violation('a module name appears more than once in one level', '%s: %s in %s' % (what, m, shown))
                for m in names:
                    if m not in want:
                        L.violation('merging invents a module', '%s: %s in %s' % (what, m, shown))
                for n in nodes:
                    for k, v in n.members.items():
                        L.count('obligations')
                        e = exp.get(n.name, {}).get(k, set())
                        if e - set(v):
                            L.violation('merging loses %s' % k, '%s: %s lacks %s' % (what, n.name, sorted(e - set(v))))
                        if set(v) - e:
                            L.violation('merging invents %s' % k, '%s: %s has %s' % (what, n.name, sorted(set(v) - e)))
                        if len(set(v)) != len(v):
                            L.violation('merging duplicates %s' % k, '%s: %s has %s' % (what, n.name, v))
                    level(n.subs, n.name)
            level(rs, '')
        explore_all(rep, what, run_generate(P, M, mk), tree_policy(P), judge, budget_s=60)
    if not rep.cov.get('merges judged'):
        rep.violation('coverage: no merge judged', '')
    return dict(level='other',
                rule='For every listed constellation of duplicate modules, on every abstract path of Codegen::generate the module trees handed to Module::generate contain, per module name and member kind, exactly the union of the members of all copies, each once, and each module name once per level.',
                assumptions=['contracts in sa/models.py', 'constellations as listed (up to 4 levels, 7 copies); names are concrete and members are labelled'],
                explanation='Abstract interpretation of the MIR of Codegen::generate (canonicalize, merge_duplicate_modules) over module trees with labelled members.')
