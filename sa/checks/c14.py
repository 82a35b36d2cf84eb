"""C14 generation is deterministic"""
import re
from gencg import *

CRATES = ('pyo3_bindgen_engine', 'pyo3_bindgen_macros', 'pyo3_bindgen.bin', 'pyo3_bindgen')
BANNED = [
    (r'^std::time::(?!Duration)|::SystemTime::now|::Instant::now|^chrono::', 'reads the clock'),
    (r'^(rand|getrandom|fastrand|rand_core|uuid)::', 'uses randomness'),
    (r'^std::thread::(current|id|park)|::ThreadId', 'depends on the identity of a thread'),
    (r'^std::process::id$|libc::.*getp?pid$|^std::os::.*::parent_id$', 'depends on the identity of the process'),
    (r'^std::env::(var|vars|var_os|vars_os|current_dir|temp_dir|current_exe|home_dir)', 'depends on the environment'),
    (r'RandomState as .*BuildHasher|RandomState::(new|hash_one|build_hasher)$', 'hashes with random keys'),
    (r'^std::fs::read_dir|::Path::read_dir$', 'depends on the order of directory entries'),
    (r'rt::Argument.*::new_pointer$|fmt::Pointer', 'formats an address'),
    (r'^pyo3::.*::(as_ptr|into_ptr|as_type_ptr|as_ref_ptr)$', 'exposes the address of a Python object'),
    (r'^pyo3::types::any::PyAny(Methods)?::hash$', 'uses the hash of a Python object (random per process)'),
    (r'::(fetch_add|fetch_sub|fetch_max|fetch_update|fetch_xor|fetch_or|fetch_and)$', 'counts in a global variable'),
    (r'^std::thread::local::LocalKey|^std::sync::mpsc::', 'keeps state in a thread or orders by scheduling'),
]
ADAPT = {'iter', 'into_iter', 'iter_mut', 'keys', 'into_keys', 'values', 'into_values', 'values_mut', 'drain', 'difference', 'union', 'intersection', 'symmetric_difference', 'map', 'filter', 'filter_map',
         'cloned', 'copied', 'flat_map', 'flatten', 'inspect', 'unique', 'by_ref', 'chain', 'dedup', 'map_ok', 'filter_ok'}
FREE = {'any', 'all', 'count', 'contains', 'sum', 'product', 'min', 'max', 'sorted', 'sorted_by', 'sorted_by_key', 'sorted_unstable', 'sorted_unstable_by', 'sorted_unstable_by_key', 'sorted_by_cached_key',
        'is_subset', 'is_superset', 'is_disjoint', 'all_unique', 'len', 'is_empty', 'min_by_key_', 'counts', 'size_hint'}
SETLIKE = ('HashSet', 'HashMap', 'BTreeSet', 'BTreeMap', 'BinaryHeap')


def strip_ref(P, i):
    t = P.types[i]
    while t['k'] == 'ref':
        t = P.types[t['t']]
    return t


def has_random(P, t):
    return any(isinstance(a, int) and P.types[a]['k'] == 'adt' and P.types[a]['p'].endswith('::RandomState') for a in t.get('a', ()))


def random_container(P, i):
    """is type i a hash container (or a reference to one) whose hasher is seeded at random?"""
    if not isinstance(i, int):
        return False
    t = strip_ref(P, i)
    if t['k'] != 'adt' or not re.search(r'::(HashMap|HashSet)$', t['p']):
        return False
    return has_random(P, t)


def tracked_calls(b):
    for bi, blk in enumerate(b['blocks'] or []):
        t = blk['t']
        if t and t['t'] == 'call' and t['f']['o'] == 'const' and t['f']['c']['k'] == 'fn':
            yield t


def op_local(o):
    return o['p']['l'] if o.get('o') in ('copy', 'move') else None


def aliases(b, l):
    """locals that hold l, a move of it, or a reference into it"""
    s = {l}
    while True:
        n = len(s)
        for blk in b['blocks']:
            for st in blk['s']:
                if st['s'] != '=':
                    continue
                r = st['r']
                src = None
                if r.get('r') == 'use':
                    src = op_local(r['o'])
                elif r.get('r') == 'ref':
                    src = r['p']['l']
                if src in s:
                    s.add(st['p']['l'])
            t = blk['t']
            if t and t['t'] == 'call' and t['f']['o'] == 'const' and t['f']['c']['k'] == 'fn' and t['f']['c']['f']['item'] in ('deref', 'deref_mut', 'as_mut_slice', 'as_mut', 'borrow_mut', 'branch', 'unwrap'):
                if t['a'] and op_local(t['a'][0]) in s:
                    s.add(t['d']['l'])
        if len(s) == n:
            return s


def escape(P, b, t, depth=0):
    """does the order of the iterator produced by call t of body b reach anything that depends on it? -> description or None"""
    if depth > 12:
        return 'a chain of iterators'
    al = aliases(b, t['d']['l'])
    users = [u for u in tracked_calls(b) if u is not t and any(op_local(a) in al for a in u['a'])]
    for u in users:
        it = u['f']['c']['f']['item']
        rt = P.types[strip_idx(P, u)]['s'] if strip_idx(P, u) is not None else ''
        if it in ('drop', 'drop_in_place') or it in FREE:
            continue
        if it in ADAPT:
            e = escape(P, b, u, depth + 1)
            if e:
                return e
            continue
        if it in ('collect', 'from_iter', 'collect_vec', 'extend', 'collect_into'):
            if it == 'extend':
                recv = strip_ref(P, u['f']['c']['f']['args'][0]) if u['f']['c']['f']['args'] and isinstance(u['f']['c']['f']['args'][0], int) else {'s': ''}
                rt = recv['s']
                if any(k in rt.split('<')[0] for k in SETLIKE):
                    continue
                return 'extends ' + rt.split('<')[0]
            m = re.match(r'core::(result::Result|option::Option)<(.*)', rt)
            if any(k in (m[2] if m else rt).split('<')[0] for k in SETLIKE):
                continue
            vs = aliases(b, u['d']['l'])
            if any(w['f']['c']['f']['item'].startswith('sort') and w['a'] and op_local(w['a'][0]) in vs for w in tracked_calls(b)):
                continue
            return 'is collected into ' + rt.split('<')[0]
        if it in ('deref', 'deref_mut', 'branch', 'unwrap', 'as_mut'):
            continue
        return 'reaches ' + (it or u['f']['c']['f']['name'])
    if not users:
        if 0 in al:
            return 'is returned'
    return None


def strip_idx(P, u):
    return u.get('rt')


def is_string(path, o):
    if path.memo.get(('pyres', 'extract', o, 'alloc::string::String')) == 'ok' or path.memo.get(('pyres', 'extract', o, '&str')) == 'ok':
        return True
    return any(v is True and f.op == 'isinstance' and f.args[0] is o and 'PyString' in repr(f.args[1]) for f, v in path.facts.items() if isinstance(f, Sym))


def run(rep):
    # 1. primitives that are not a function of the Python modules and the configuration
    for crate in CRATES:
        P = program(crate)
        for b in P.bodies.values():
            for blk in b['blocks'] or []:
                for s in blk['s']:
                    if s['s'] == '=' and s['r'].get('r') == 'cast':
                        rep.count('casts scanned')
                        if 'Expose' in s['r']['k']:
                            rep.violation('%s turns an address into a number' % b['name'], s.get('at', ''))
        for b, t, n in callsites(P, lambda n: True):
            rep.count('call sites scanned')
            for rx, what in BANNED:
                r = t['f']['c']['f']
                if any(re.search(rx, m) for m in {r['name'], (r['res'] or r)['name']}):
                    if b['impl'] and b['impl'].get('derived'):
                        continue
                    rep.violation('%s %s' % (root(b['name']), what), 'call of %s' % n)
        # 2. iteration over randomly seeded hash containers
        for b in P.bodies.values():
            if b['impl'] and b['impl'].get('derived'):
                continue
            for t in tracked_calls(b):
                r = t['f']['c']['f']
                conts = [a for a in r['args'] if random_container(P, a)]
                isrand = bool(conts) or any(random_container(P, b['locals'][op_local(a)]) for a in t['a'][:1] if op_local(a) is not None)
                inherent = 'std::collections::hash::' in r['name'] and any(isinstance(a, int) and P.types[a]['k'] == 'adt' and P.types[a]['p'].endswith('::RandomState') for a in r['args'])
                if not (isrand or inherent):
                    continue
                it = r['item']
                rep.count('uses of randomly seeded hash containers')
                if it in ('extend', 'from_iter') and conts and random_container(P, r['args'][-1]) and not any(k in P.types[r['args'][0]]['s'].split('<')[0] for k in SETLIKE):
                    rep.violation('%s: the order of a randomly seeded hash container reaches an ordered collection' % root(b['name']), 'by ' + it)
                elif it in ('iter', 'into_iter', 'iter_mut', 'keys', 'into_keys', 'values', 'into_values', 'values_mut', 'drain', 'difference', 'union', 'intersection', 'symmetric_difference', 'retain', 'quote_into_iter'):
                    e = escape(P, b, t)
                    if e:
                        rep.violation('%s: the order of a randomly seeded hash container reaches the output' % root(b['name']), 'the iteration (%s) %s' % (it, e))
                elif it == 'new_debug':
                    rep.violation('%s: formats a randomly seeded hash container' % root(b['name']), '')

    # 3. nothing but the text of Python strings becomes documentation; names of Python functions that are not deterministic are not used
    P = program()
    M = contracts(P)

    class Pol(ParsePolicy):
        opaque_names = {'class::Class::parse': summary_parser(P, 'class::Class', 'Class')(''),
                        'function::Function::parse': summary_parser(P, 'function::Function', 'Function')(''),
                        'property::Property::parse': summary_parser(P, 'property::Property', 'Property')(''),
                        'module::Module::parse': module_summary(P), TYPE_FROM: type_summary}

        def opaque(self, I, name, body, args):
            return ParsePolicy.opaque(self, I, name, body, args) if I.frames else None

        def outcomes(self, path, ev):
            return ('ok', 'err') if ev.kind in ('extract',) or ev.kind == 'getattr' and ev.args[1] == '__doc__' else ('ok',)

        def segments(self, path, s):
            return (1,)

        def lengths(self, path, s):
            return (0,)
    BADPY = {'id', 'hash', '__hash__', 'random', 'time', 'uuid', 'secrets', 'urandom', 'getpid', 'environ', 'getenv', 'monotonic', 'perf_counter', 'set', 'frozenset', 'shuffle', 'sample'}

    def judge(what, tail):
        def j(L, path, o):
            for e in path.events:
                if e.kind in ('pycall', 'getattr', 'import'):
                    L.count('Python operations')
                    for x in e.args[:2]:
                        if isinstance(x, str) and x in BADPY:
                            L.violation('%s: the output depends on Python\'s %s' % (what, x), repr(e))
                if e.kind == 'eval':
                    for w in BADPY:
                        if isinstance(e.args[0], str) and re.search(r'\b%s\s*\(' % w, e.args[0]):
                            L.violation('%s: the output depends on Python\'s %s' % (what, w), repr(e))
                if e.kind == 'nondet':
                    L.violation('%s: %s' % (what, e.name), '')
            if not is_ok(o):
                return
            v = o[1].f[0]
            if not isinstance(v, Adt):
                return
            for f in ('docstring', 'setter_docstring'):
                if f in fields(P, tail):
                    d = field(P, v, f, tail)
                    if isinstance(d, Adt) and d.v == 1:
                        d = d.f[0]
                        L.count('obligations')
                        L.count('docstrings judged')
                        L.sample('%s.%s = %r' % (what, f, d))
                        for s in parts(d) if isinstance(d, Sym) else []:
                            if isinstance(s, Sym) and s.op in ('str', 'repr', 'disp', 'debug') and not is_string(path, s.args[0]):
                                L.violation('%s: the text of a Python object that might not be a string becomes documentation' % what,
                                            '%s is str(%r); the default text of an object contains its address' % (f, s.args[0]))
        return j
    cfg = lambda: cfg_with(P, generate_preludes=False)
    mpath = lambda: mk_path(P, [S('m'), S('x')])
    F = lambda kind: ftype(P, kind, mk_path(P, [S('m'), S('c')]))
    for what, tail, args in (
            ('Module::parse', 'module::Module', lambda: [Ref([cfg()]), Ref([S('mod')])]),
            ('Module::empty', 'module::Module', lambda: [S('py'), mpath()]),
            ('Class::parse', 'class::Class', lambda: [Ref([cfg()]), Ref([S('cls')]), mpath()]),
            ('Function::parse', 'function::Function', lambda: [Ref([cfg()]), Ref([S('fun')]), mpath(), F('Function')]),
            ('Property::parse', 'property::Property', lambda: [Ref([cfg()]), Ref([S('prop')]), mpath(), enum(P, 'PropertyOwner', 'Class')])):
        body = fn(P, tail + '::' + what.split('::')[1])

        def r(path, body=body, args=args):
            return Interp(P, path, M).call_body(body, args())
        explore_all(rep, what, r, Pol(), judge(what, tail), budget_s=60, max_paths=20000)
    if not rep.cov.get('docstrings judged'):
        rep.violation('coverage: no docstring judged', '')
    if not rep.cov.get('Python operations'):
        rep.violation('coverage: no Python operation', '')
    return dict(level='other',
                rule='No call site of the four crates reads a clock, randomness, the environment, an address, an identity or global mutable state; every iteration over a hash container with a randomly seeded hasher ends in an order-insensitive consumer or a sort; documentation is only taken from Python strings; no Python function with a run-dependent result is called.',
                assumptions=['FxHasher and insertion order are deterministic', 'inspect.signature, dir() and pkgutil.iter_modules return the same answer for the same module'],
                explanation='Scan of every call, cast and hash-container use in the MIR of all crates with local dataflow from iterations to consumers, plus abstract interpretation of the parsers for the provenance of documentation.')


def root(n):
    return re.sub(r'(::\{closure#\d+\})+$', '', n)
