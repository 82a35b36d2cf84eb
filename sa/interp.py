"""Abstract interpreter over the MIR dump of one crate."""
import re, json
from core import *


class Adt:
    __slots__ = ('p', 'v', 'f')

    def __init__(self, p, v, f):
        self.p, self.v, self.f = p, v, f

    def __repr__(self):
        return '%s#%s%r' % (self.p.split('::')[-1], self.v, self.f)


# the arguments of these are passed as one tuple
CLOSURE_CALLS = ('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call')


class Tup:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return 'T%r' % (self.f,)


class Lst:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = items

    def __repr__(self):
        return 'L%r' % (self.items,)


PREFIXES = {}                # contracts for everything below a path
FALLBACK = {}                # contracts by name without generic parameters
_norm = {}


def norm(name):
    r = _norm.get(name)
    if r is None:
        r = _norm[name] = re.sub(r'::<(?!impl )[^<>]*(?:<[^<>]*>[^<>]*)*>', '', name)
    return r


class Slice:
    __slots__ = ('items', 'lo', 'hi')

    def __init__(self, items, lo=0, hi=None):
        self.items, self.lo = items, lo
        self.hi = len(items) if hi is None else hi

    def list(self):
        return self.items[self.lo:self.hi]

    def __len__(self):
        return self.hi - self.lo

    def __repr__(self):
        return '&%r' % (self.list(),)


class Ref:
    __slots__ = ('c', 'k')

    def __init__(self, c, k=0):
        self.c, self.k = c, k

    def get(self):
        return self.c[self.k]

    def set(self, v):
        self.c[self.k] = v

    def __repr__(self):
        return '&' + repr(self.c[self.k])


class Init(list):
    """the content cell of a Box<MaybeUninit<T>>"""


class Box_:
    __slots__ = ('f', 'kind')

    def __init__(self, v, kind='box'):
        self.f, self.kind = Init([v]) if kind == 'uninit' else [v], kind

    def __repr__(self):
        return '%s(%r)' % (self.kind, self.f[0])


class Clo:
    __slots__ = ('key', 'f')

    def __init__(self, key, f):
        self.key, self.f = key, f

    def __repr__(self):
        return '<closure %s>' % self.key


class Fn:
    __slots__ = ('ref',)

    def __init__(self, ref):
        self.ref = ref

    def __repr__(self):
        return '<fn %s>' % self.ref['name']


class PyFn:
    """a callable of the analyser itself, passed where the program expects a closure"""
    def __init__(self, fn):
        self.fn = fn


class HMap:
    __slots__ = ('keys', 'vals', 'hasher', 'is_set')

    def __init__(self, is_set, hasher):
        self.keys, self.vals, self.is_set, self.hasher = [], [], is_set, hasher

    def __repr__(self):
        return 'H%r' % (self.keys if self.is_set else list(zip(self.keys, self.vals)),)


class TS:
    """token stream"""
    __slots__ = ('t',)

    def __init__(self, t=None):
        self.t = t if t is not None else []

    def __repr__(self):
        return 'TS<%s>' % render(self.t)


def render(toks):
    out = []
    for t in toks:
        if isinstance(t, str):
            out.append(t)
        elif isinstance(t, tuple):
            if t[0] == 'group':
                o, c = {'p': '()', 'b': '{}', 'k': '[]', 'n': '  '}[t[1]]
                out.append(o + ' ' + render(t[2]) + ' ' + c)
            elif t[0] == 'id':
                out.append(t[1] if isinstance(t[1], str) else '⟨%r⟩' % (t[1],))
            elif t[0] == 'lit':
                out.append(rust_str(t[1]) if isinstance(t[1], str) else ('"⟨%r⟩"' % (t[1],) if isinstance(t[1], Sym) else str(t[1])))
            elif t[0] == 'p':
                out.append(t[1])
            else:
                out.append('⟨%r⟩' % (t,))
        else:
            out.append('⟨%r⟩' % (t,))
    s = ''
    for i, x in enumerate(out):
        glue = i and isinstance(toks[i - 1], tuple) and toks[i - 1][0] == 'p' and toks[i - 1][2]
        s += x if i == 0 else (x if glue else ' ' + x)
    return s


def rust_str(s):
    o = '"'
    for c in s:
        o += {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\r': '\\r', '\t': '\\t'}.get(c, c)
    return o + '"'


class Event:
    __slots__ = ('kind', 'name', 'args', 'res', 'at', 'fn', 'pos', 'extra', 'stack', 'err')

    def __repr__(self):
        return '%s %s%s -> %s @%s' % (self.kind, self.name, self.args, self.res, self.at)


OPTION, RESULT = 'core::option::Option', 'core::result::Result'
FLOW, ORD = 'core::ops::control_flow::ControlFlow', 'core::cmp::Ordering'


def some(x): return Adt(OPTION, 1, [x])
def none(): return Adt(OPTION, 0, [])
def ok(x): return Adt(RESULT, 0, [x])
def err(x): return Adt(RESULT, 1, [x])
UNIT = Tup([])


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d['crate']
        self.types = d['types']
        self.adts = {a['p']: a for a in d['adts']}
        self.reexports = d.get('reexports', [])
        self.bodies = {}
        self.promoted = {}
        self.byname = {}
        self.impls = {}
        for b in d['bodies']:
            if b['kind'] == 'promoted':
                self.promoted[(b['key'], b['promoted'])] = b
                continue
            self.bodies[b['key']] = b
            self.byname[b['name']] = b
            i = b['impl']
            if i and i['trait'] and b['item']:
                self.impls.setdefault((norm_trait(i['trait']), i['self'], b['item']), b)
        self.drops = {b['impl']['self'].split('<')[0]: b for b in d['bodies']
                      if b.get('impl') and b['impl']['trait'] == 'core::ops::drop::Drop' and b['item'] == 'drop'}

    def find(self, *subs):
        r = [b for b in self.bodies.values() if all(s in b['name'] for s in subs) and b['kind'] == 'fn']
        return r

    def method(self, ty, item):
        """inherent or trait method `item` of the local type whose name ends in `ty`"""
        r = [b for b in self.bodies.values() if b['item'] == item and b['impl'] and b['impl']['self'].split('<')[0].endswith(ty)]
        return r


def norm_trait(t):
    return t


class Frame:
    __slots__ = ('body', 'locals', 'at')

    def __init__(self, body, locals_):
        self.body, self.locals, self.at = body, locals_, body['at']


UNINIT = S('uninit')
CONST_CACHE = {}


class Interp:
    def __init__(self, prog, path, models):
        self.P, self.path, self.models = prog, path, models
        self.frames = []
        self.policy = path.policy
        self.T = prog.types
        self.depth = 0

    # ------------------------------------------------------------------ events
    def event(self, kind, name, args=(), extra=None):
        e = Event()
        e.kind, e.name = kind, name
        e.args = tuple(self.freeze(a) for a in args)
        e.res, e.extra, e.err = None, extra, None
        e.at = self.frames[-1].at if self.frames else ''
        e.fn = self.frames[-1].body['name'] if self.frames else ''
        e.stack = tuple(f.body['name'] for f in self.frames)
        e.pos = len(self.path.log)
        self.path.events.append(e)
        self.path.log.append(('ev', e))
        return e

    def outcome(self, ev, mkok):
        """a fallible foreign call: split into its outcomes"""
        o = self.path.split(tuple(self.policy.outcomes(self.path, ev)), 'outcome of %s' % ev)
        ev.res = o
        if o == 'ok':
            return ok(mkok() if callable(mkok) else mkok)
        ev.err = S('pyerr', ev.name, *[a for a in ev.args if isinstance(a, (str, Sym))][:2], len(self.path.events))
        return err(ev.err)

    def panic(self, kind, msg='', cause=None):
        raise Panic(kind, msg, self.frames[-1].at if self.frames else None,
                    [f.body['name'] for f in self.frames], cause)

    # ------------------------------------------------------------------ freezing values into terms
    def freeze(self, v, d=0):
        if d > 12:
            return S('deep')
        if isinstance(v, (str, int, bool, Sym)) or v is None:
            return v
        if isinstance(v, Ref):
            return self.freeze(v.get(), d + 1)
        if isinstance(v, Box_):
            return self.freeze(v.f[0], d + 1)
        if isinstance(v, Adt):
            if v.p.endswith('ident::Ident') and len(v.f) == 1 and isinstance(v.f[0], (str, Sym)):
                return S('Ident', v.f[0])
            return S('adt', v.p.split('::')[-1], v.v, *[self.freeze(x, d + 1) for x in v.f])
        if isinstance(v, Tup):
            return S('tup', *[self.freeze(x, d + 1) for x in v.f])
        if isinstance(v, Lst):
            return S('list', *[self.freeze(x, d + 1) for x in v.items])
        if isinstance(v, Slice):
            return S('list', *[self.freeze(x, d + 1) for x in v.list()])
        if isinstance(v, Clo):
            return S('closure', v.key)
        if isinstance(v, Fn):
            return S('fn', v.ref['name'])
        if isinstance(v, TS):
            return S('ts', render(v.t))
        if isinstance(v, HMap):
            return S('hmap', *[self.freeze(x, d + 1) for x in v.keys])
        if isinstance(v, float):
            return S('float', str(v))
        return S('opaque', type(v).__name__)

    # ------------------------------------------------------------------ calling
    def call_body(self, body, args, site=None):
        self.depth += 1
        if self.depth > 120:
            self.depth = 0
            raise Undecided('call depth in ' + body['name'])
        L = [UNINIT] * len(body['locals'])
        argc = body['argc']
        if body['kind'] == 'closure' and len(args) != argc and len(args) == 2 and isinstance(args[1], Tup):
            args = [args[0]] + list(args[1].f)
        if len(args) != argc:
            raise Undecided('arity of %s: %d for %d' % (body['name'], len(args), argc))
        for i, a in enumerate(args):
            L[i + 1] = a
        fr = Frame(body, L)
        self.frames.append(fr)
        try:
            return self.run(fr)
        finally:
            self.frames.pop()
            self.depth -= 1

    def call_value(self, f, args):
        """call a closure / fn item / reference to one with the given list of arguments"""
        while isinstance(f, (Ref, Box_)):
            f = f.get() if isinstance(f, Ref) else f.f[0]
        if isinstance(f, PyFn):
            return f.fn(*args)
        if isinstance(f, Clo):
            b = self.P.bodies[f.key]
            t = self.T[b['locals'][1]]
            me = Ref([f]) if t['k'] == 'ref' else f
            return self.call_body(b, [me] + list(args))
        if isinstance(f, Fn):
            return self.call_ref(f.ref, list(args), None, None)
        if isinstance(f, Sym):
            ev = self.event('callsym', repr(f), args)
            return S('result_of', f, len(self.path.events))
        if isinstance(f, Adt):
            raise Undecided('call of %r' % (f,))
        raise Undecided('call of %r' % (f,))

    def call_ref(self, ref, args, rt, at):
        """call the function a MIR constant names"""
        res = ref['res']
        name = ref['name']
        body = None
        if name in CLOSURE_CALLS and len(args) == 2:
            return self.call_value(args[0], args[1].f if isinstance(args[1], Tup) else [args[1]])
        if res and res['key'] in self.P.bodies and not (res['derived'] in (True, 'true')):
            body = self.P.bodies[res['key']]
        elif not res and ref['key'] in self.P.bodies and ref['local'] in (True, 'true'):
            body = self.P.bodies[ref['key']]
        if body is not None:
            return self.call_local(body, args, ref, rt)
        if res is None and ref['trait']:
            b = self.dispatch(ref, args)
            if b is not None:
                return self.call_local(b, args, ref, rt)
        m = self.models.get(name)
        if m is None and res:
            m = self.models.get(res['name'])
        if m is None and ref['item'] and ref['trait']:
            m = self.models.get(ref['trait'] + '::*')
        if m is None:
            m = FALLBACK.get(norm(name)) or (FALLBACK.get(norm(res['name'])) if res else None)
        if m is None:
            for pre in PREFIXES:
                if name.startswith(pre):
                    m = PREFIXES[pre]
        if m is None:
            if getattr(self.policy, 'strict', True):
                raise Undecided('no contract for %s' % name)
            self.event('unknown', name, args)
            return S('unknown', name, len(self.path.events), ty=rt)
        return m(self, args, ref, rt)

    def call_local(self, body, args, ref, rt):
        h = self.policy.opaque(self, body['name'], body, args)
        if h is not None:
            return h(self, args, ref, rt)
        m = self.models.get('local:' + body['name'].split('::', 1)[1])
        if m is not None:
            return m(self, args, ref, rt)
        return self.call_body(body, args)

    def dispatch(self, ref, args):
        """trait method on a type parameter: use the runtime value's type"""
        if not args:
            return None
        v = args[0]
        while isinstance(v, (Ref, Box_)):
            v = v.get() if isinstance(v, Ref) else v.f[0]
        if isinstance(v, Adt):
            for (tr, st, it), b in self.P.impls.items():
                if it == ref['item'] and st.split('<')[0] == v.p and tr.split('<')[0] == (ref['trait'] or '').split('<')[0]:
                    if not b['impl']['derived'] in (True, 'true'):
                        return b
        return None

    # ------------------------------------------------------------------ places
    def resolve(self, fr, pl):
        """-> (container, key) or ('uns', value)"""
        c, k = fr.locals, pl['l']
        uns = None
        for e in pl['p']:
            kind = e['e']
            if kind == 'deref':
                v = c[k] if uns is None else uns
                uns = None
                if isinstance(v, Ref):
                    c, k = v.c, v.k
                elif isinstance(v, (Slice, str)):
                    uns = v
                elif isinstance(v, Box_):
                    c, k = v.f, 0
                elif isinstance(v, Sym):
                    if v is UNINIT:
                        raise Undecided('deref of uninit in ' + fr.body['name'])
                    cell = self.path.memo.get(('cell', v))
                    if cell is None:
                        cell = self.path.memo[('cell', v)] = [v]
                        t = self.T[e['t']]
                        if v.ty is None and t['k'] in ('ref', 'ptr'):
                            v.ty = (self.P.crate, t['t'])
                    c, k = cell, 0
                elif isinstance(v, (TS, Lst, HMap, Adt, Tup)):
                    # value standing for its own reference
                    c, k = [v], 0
                else:
                    raise Undecided('deref of %r' % (v,))
            elif kind == 'field':
                v = c[k] if uns is None else uns
                if v is UNINIT and uns is None and isinstance(c, Init):      # Box<MaybeUninit<T>> contents: one cell
                    continue
                if isinstance(v, Sym):
                    v = self.materialize(v, c if uns is None else None, k, e)
                if isinstance(v, Sym):
                    c, k = [S('f', v, e['i'], ty=(self.P.crate, e['t']))], 0
                    uns = None
                    continue
                if isinstance(v, Box_):     # Box internals (pointer wrappers)
                    continue
                f = v.f
                while len(f) <= e['i']:
                    f.append(UNINIT)
                if f[e['i']] is UNLOADED:
                    f[e['i']] = S('f', v_origin(v), e['i'], ty=(self.P.crate, e['t']))
                elif isinstance(f[e['i']], Sym) and f[e['i']].ty is None:
                    f[e['i']].ty = (self.P.crate, e['t'])
                c, k, uns = f, e['i'], None
            elif kind == 'downcast':
                pass
            elif kind in ('index', 'cindex'):
                v = c[k] if uns is None else uns
                items, lo, hi = self.seq(v)
                if kind == 'index':
                    i = fr.locals[e['l']]
                    if not isinstance(i, int):
                        raise Undecided('symbolic index')
                else:
                    i = (hi - lo) - e['o'] if e['fe'] in (True, 'true', 1) else e['o']
                if not (0 <= i < hi - lo):
                    raise Undecided('index out of range after check')
                c, k, uns = items, lo + i, None
            elif kind == 'subslice':
                v = c[k] if uns is None else uns
                items, lo, hi = self.seq(v)
                uns = Slice(items, lo + e['from'], (hi - e['to']) if e['fe'] in (True, 'true', 1) else lo + e['to'])
            else:
                raise Undecided('projection ' + kind)
        return ('uns', uns) if uns is not None else (c, k)

    def materialize(self, v, c, k, e):
        """a struct-typed provenance term whose field is accessed"""
        return v

    def seq(self, v):
        v = self.deref(v)
        if isinstance(v, Lst):
            return v.items, 0, len(v.items)
        if isinstance(v, Slice):
            return v.items, v.lo, v.hi
        if isinstance(v, Sym):
            l = self.as_list(v)
            return l.items, 0, len(l.items)
        raise Undecided('sequence expected, got %r' % (v,))

    def deref(self, v):
        while True:
            if isinstance(v, Ref):
                v = v.c[v.k]
            elif isinstance(v, Box_):
                v = v.f[0]
            else:
                return v

    def as_list(self, s, elemty=None):
        """expand a symbolic sequence to one of the lengths the analysis partitions into"""
        key = ('list', s)
        l = self.path.memo.get(key)
        if l is None:
            n = self.path.split(tuple(self.policy.lengths(self.path, s)), 'length of %r' % (s,))
            l = self.path.memo[key] = Lst([self.policy.element(s, i) if hasattr(self.policy, 'element') else S('el', s, i) for i in range(n)])
            self.path.record(S('eq', S('len', s), n), True)
            self.path.bind[S('len', s)] = n
        return l

    def load(self, fr, pl):
        c, k = self.resolve(fr, pl)
        return k if isinstance(c, str) else c[k]

    def store(self, fr, pl, v):
        if not pl['p']:
            fr.locals[pl['l']] = v
            return
        c, k = self.resolve(fr, pl)
        if isinstance(c, str):
            raise Undecided('store through unsized place')
        c[k] = v

    def copyval(self, v):
        if isinstance(v, Tup):
            return Tup([self.copyval(x) for x in v.f])
        if isinstance(v, Adt):
            return Adt(v.p, v.v, [self.copyval(x) for x in v.f])
        if isinstance(v, Clo):
            return Clo(v.key, list(v.f))
        return v

    def operand(self, fr, o):
        if o['o'] == 'const':
            return self.const(o['c'])
        pl = o['p']
        v = fr.locals[pl['l']] if not pl['p'] else self.load(fr, pl)
        if o['o'] == 'copy' and isinstance(v, (Tup, Adt)):
            return self.copyval(v)
        return v

    def const(self, c):
        k = c['k']
        if k == 'str':
            return c['v']
        if k == 'int':
            t = self.T[c['ty']]
            if t['s'] == 'bool':
                return bool(c['v'])
            return c['v']
        if k == 'fn':
            return Fn(c['f'])
        if k == 'bytes':
            return Slice(list(c['v']))
        if k == 'rawbytes':
            t = self.T[c['ty']]
            if t['k'] == 'ref' and self.T[t['t']]['s'] == 'str':
                return bytes(c['v']).decode()
            return Slice(list(c['v']))
        if k == 'zst':
            t = self.T[c['ty']]
            if t['k'] == 'tuple':
                return Tup([])
            if t['k'] == 'closure':
                return Clo(t['p'], [])
            if t['k'] == 'fndef':
                return Fn(t['f'])
            if t['k'] == 'adt':
                return Adt(t['p'], 0, [])
            return S('zst', t['s'])
        if k == 'uneval':
            key = (self.P.crate, c['key'], c['promoted'])
            if key not in CONST_CACHE:
                b = self.P.promoted.get((c['key'], c['promoted'])) if c['promoted'] is not None else self.P.bodies.get(c['key'])
                if b is None:
                    raise Undecided('constant ' + c['key'])
                CONST_CACHE[key] = self.call_body(b, [])
            v = CONST_CACHE[key]
            return self.copyval(v) if isinstance(v, (Tup, Adt)) else v
        if k == 'static':
            key = (self.P.crate, 'static', c['key'])
            if key not in CONST_CACHE:
                b = self.P.bodies.get(c['key'])
                if b is None:
                    return S('static', c['name'])
                CONST_CACHE[key] = self.call_body(b, [])
            return Ref([CONST_CACHE[key]])
        return S('const', k, c.get('s', ''), ty=(self.P.crate, c['ty']))

    # ------------------------------------------------------------------ enums
    def variant_value(self, v, c=None, k=None, tyid=None):
        """make sure an enum-typed value has a known variant"""
        if isinstance(v, Adt):
            return v
        if isinstance(v, Sym):
            a = self.path.memo.get(('adt', v))
            if a is None:
                t = None
                if tyid is not None:
                    t = self.T[tyid]
                elif v.ty:
                    t = self.T[v.ty[1]]
                if not t or t['k'] != 'adt' or t['p'] not in self.P.adts:
                    raise Undecided('variant of %r (%s)' % (v, t and t['s']))
                vs = self.P.adts[t['p']]['v']
                opts = self.policy.variants(self.path, v, t, vs) if hasattr(self.policy, 'variants') else None
                i = self.path.split(tuple(opts if opts is not None else range(len(vs))), 'variant of %r' % (v,))
                self.path.log.append(('variant', v, vs[i]['n']))
                self.path.facts[S('variant', v)] = vs[i]['n']
                a = Adt(t['p'], i, [])
                for j in range(len(vs[i]['f'])):
                    a.f.append(S('v', v, vs[i]['n'], j))
                # element types of Option/Result
                if t['p'] in (OPTION, RESULT) and a.f:
                    targ = t['a'][0 if (t['p'] == OPTION or i == 0) else 1]
                    if isinstance(a.f[0], Sym) and a.f[0].ty is None and isinstance(targ, int):
                        a.f[0].ty = (self.P.crate, targ)
                self.path.memo[('adt', v)] = a
            a = Adt(a.p, a.v, list(a.f))
            if c is not None:
                c[k] = a
            return a
        return v

    # ------------------------------------------------------------------ the loop
    def run(self, fr):
        body = fr.body
        blocks = body['blocks']
        bi = 0
        path = self.path
        limit = self.policy.max_steps
        visits = {} if body['name'].endswith(tuple(self.policy.loop_bound)) else None
        while True:
            blk = blocks[bi]
            if visits is not None:
                visits[bi] = visits.get(bi, 0) + 1
                if visits[bi] > self.policy.loop_bound[[t for t in self.policy.loop_bound if body['name'].endswith(t)][0]]:
                    raise Stop('loop bound in ' + body['name'])
            for s in blk['s']:
                path.steps += 1
                k = s['s']
                if k == '=':
                    fr.at = s['at']
                    v = self.rvalue(fr, s['r'])
                    pl = s['p']
                    if not pl['p']:
                        fr.locals[pl['l']] = v
                    else:
                        self.store(fr, pl, v)
                elif k == 'dead':
                    pass
                elif k == 'setdiscr':
                    raise Undecided('setdiscr')
            path.steps += 1
            if path.steps > limit:
                raise Undecided('step budget in ' + body['name'])
            t = blk['t']
            k = t['t']
            if k == 'goto':
                bi = t['b']
            elif k == 'call':
                fr.at = t['at']
                f = t['f']
                if f['o'] == 'const' and f['c']['k'] == 'fn':
                    args = [self.operand(fr, a) for a in t['a']]
                    v = self.call_ref(f['c']['f'], args, (self.P.crate, t['rt']), t['at'])
                else:
                    fv = self.operand(fr, f)
                    args = [self.operand(fr, a) for a in t['a']]
                    v = self.call_value(fv, args)
                if t['b'] is None:
                    raise Undecided('diverging call returned: %r' % (f,))
                if isinstance(v, Sym) and v.ty is None:
                    v.ty = (self.P.crate, t['rt'])
                self.store(fr, t['d'], v)
                bi = t['b']
            elif k == 'switch':
                fr.at = t['at']
                bi = self.switch(fr, t)
            elif k == 'return':
                return fr.locals[0]
            elif k == 'drop':
                fr.at = t['at']
                if self.P.drops:
                    c, kk = self.resolve(fr, t['p'])
                    if not isinstance(c, str):
                        self.drop(c, kk)
                bi = t['b']
            elif k == 'assert':
                fr.at = t['at']
                if 'PointerDereference' in t['m']['k'] or 'NullReference' in t['m']['k']:      # inserted sanity checks on compiler-generated pointers
                    bi = t['b']
                    continue
                c = self.operand(fr, t['o'])
                exp = t['e'] in (True, 'true')
                m = t['m']
                if m['k'] == 'bounds':
                    ln, ix = self.operand(fr, m['len']), self.operand(fr, m['index'])
                    term = self.cmp('lt', ix, ln)
                    if not path.decide(term):
                        self.panic('index', 'index out of bounds', cause=repr((ix, ln)))
                else:
                    v = path.decide(c) if not isinstance(c, bool) else c
                    if v != exp:
                        a = [self.operand(fr, m[x]) for x in ('a', 'b') if x in m]
                        self.panic('arith', m['k'] + ' ' + m.get('op', ''), cause=repr(a))
                bi = t['b']
            elif k == 'unreachable':
                raise Infeasible('unreachable block in ' + body['name'])
            else:
                raise Undecided('terminator ' + k + ' in ' + body['name'])

    def drop(self, c, k, d=0):
        v = c[k]
        if d > 6:
            return
        if isinstance(v, Adt):
            b = self.P.drops.get(v.p)
            if b is not None:
                self.call_body(b, [Ref(c, k)])
            for i in range(len(v.f)):
                if isinstance(v.f[i], (Adt, Tup, Clo, Box_)):
                    self.drop(v.f, i, d + 1)
        elif isinstance(v, (Tup, Clo, Box_)):
            for i in range(len(v.f)):
                if isinstance(v.f[i], (Adt, Tup, Clo, Box_)):
                    self.drop(v.f, i, d + 1)

    def switch(self, fr, t):
        v = self.operand(fr, t['o'])
        ty = self.T[t['ty']]['s']
        if isinstance(v, Sym):
            if ty == 'bool':
                v = self.path.decide(v)
            else:
                for val, b in t['c']:
                    if self.path.decide(mk_eq(v, signed(val, ty))):
                        return b
                return t['d']
        if isinstance(v, bool):
            v = int(v)
        if not isinstance(v, int):
            raise Undecided('switch on %r' % (v,))
        bits = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'char': 32, 'bool': 8, 'u128': 128, 'i128': 128}.get(ty, 64)
        v &= (1 << bits) - 1
        for val, b in t['c']:
            if val & ((1 << bits) - 1) == v:
                return b
        return t['d']

    def cmp(self, op, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return CMP[op](a, b)
        return S(op, a, b)

    def rvalue(self, fr, r):
        k = r['r']
        if k == 'use':
            return self.operand(fr, r['o'])
        if k in ('ref', 'reborrow'):
            c, kk = self.resolve(fr, r['p'])
            if isinstance(c, str):
                return kk
            v = c[kk]
            return Ref(c, kk)
        if k == 'agg':
            ops = [self.operand(fr, o) for o in r['ops']]
            kk = r['k']
            if kk == 'tuple':
                return Tup(ops)
            if kk == 'array':
                return Lst(ops)
            if kk == 'adt':
                return Adt(r['p'], r['v'], ops)
            if kk == 'closure':
                return Clo(r['p'], ops)
            raise Undecided('aggregate ' + kk)
        if k == 'discr':
            c, kk = self.resolve(fr, r['p'])
            v = kk if isinstance(c, str) else c[kk]
            v = self.variant_value(v, None if isinstance(c, str) else c, kk, r['t'])
            if isinstance(v, Adt):
                a = self.P.adts.get(v.p)
                if a is None or a['kind'] != 'enum':
                    return v.v
                return int(a['v'][v.v]['d'])
            raise Undecided('discriminant of %r' % (v,))
        if k == 'bin':
            return self.binop(fr, r['op'], self.operand(fr, r['a']), self.operand(fr, r['b']), r)
        if k == 'un':
            v = self.operand(fr, r['a'])
            if r['op'] == 'Not':
                if isinstance(v, (bool, Sym)):
                    return negate(v)
                raise Undecided('not of int')
            if r['op'] == 'Neg':
                return -v if isinstance(v, int) else S('neg', v)
            if r['op'] == 'PtrMetadata':
                v = self.deref(v)
                if isinstance(v, Slice):
                    return len(v)
                if isinstance(v, Lst):
                    return len(v.items)
                if isinstance(v, Sym):
                    return len(self.as_list(v).items)
            raise Undecided('unary ' + r['op'])
        if k == 'cast':
            v = self.operand(fr, r['o'])
            t = self.T[r['t']]
            if 'Unsize' in r['k']:
                d = v
                if isinstance(d, Ref):
                    d = d.get()
                    if isinstance(d, Lst) and t['k'] in ('ref', 'ptr') and self.T[t['t']]['k'] == 'slice':
                        return Slice(d.items)
                return v
            if isinstance(v, bool) and t['s'] != 'bool':
                return int(v)
            if isinstance(v, Adt) and not v.f:     # fieldless enum as integer
                return int(self.P.adts[v.p]['v'][v.v]['d'])
            if isinstance(v, Sym) and v.op in ('bool', 'eq', 'not', 'prefix', 'suffix', 'contains', 'lt', 'le', 'valid_ident'):
                return int(self.path.decide(v)) if t['s'] != 'bool' else v
            return v
        if k == 'repeat':
            v = self.operand(fr, r['o'])
            return Lst([v] * (r['n'] or 0))
        raise Undecided('rvalue ' + k + ' ' + str(r.get('s', '')))

    def binop(self, fr, op, a, b, r):
        if isinstance(a, (Box_, Ref)) or isinstance(b, (Box_, Ref)):
            return S('ptrop')            # address arithmetic of inserted sanity checks
        if op in ('Eq', 'Ne'):
            if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
                v = a == b
            elif isinstance(a, (Sym, int, bool)) and isinstance(b, (Sym, int, bool)):
                if isinstance(b, bool) or isinstance(a, bool):
                    s, c = (a, b) if isinstance(b, bool) else (b, a)
                    v = s if c else negate(s)
                else:
                    k = self.path.known_eq(a, b)
                    v = k if k is not None else mk_eq(a, b)
            else:
                raise Undecided('compare %r %r' % (a, b))
            return v if op == 'Eq' else negate(v)
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if op in ('Gt', 'Ge'):
                a, b = b, a
            return self.cmp('lt' if op in ('Lt', 'Gt') else 'le', a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if isinstance(a, (bool, Sym)) and isinstance(b, (bool, Sym)) and op != 'BitXor':
                if isinstance(a, bool):
                    return (b if a else False) if op == 'BitAnd' else (True if a else b)
                if isinstance(b, bool):
                    return (a if b else False) if op == 'BitAnd' else (True if b else a)
                return S('and' if op == 'BitAnd' else 'or', a, b)
            if isinstance(a, int) and isinstance(b, int):
                return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op]
            return S(op.lower(), a, b)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul', 'Shl', 'Shr', 'Div', 'Rem'):
            if isinstance(a, int) and isinstance(b, int):
                v = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b, 'Shl': lambda: a << b, 'Shr': lambda: a >> b,
                     'Div': lambda: a // b if b else 0, 'Rem': lambda: a % b if b else 0}[base]()
                of = v < 0 and not self.is_signed(fr, r['a'], r['b'])
            else:
                v = add(a, b) if base == 'Add' else sub(a, b) if base == 'Sub' else S(base.lower(), a, b)
                of = False
                if base == 'Sub' and not self.is_signed(fr, r['a'], r['b']):
                    of = self.cmp('lt', a, b)
                    k = self.path.known(of) if isinstance(of, Sym) else of
                    of = of if k is None else k
            return Tup([v, of]) if 'WithOverflow' in op else v
        if op == 'Cmp':
            return self.ordering(a, b)
        if op == 'Offset':
            raise Undecided('pointer arithmetic')
        raise Undecided('binop ' + op)

    def ordering(self, a, b):
        if self.path.decide(self.cmp('lt', a, b)):
            return Adt(ORD, 0, [])
        if self.path.decide(mk_eq(a, b) if isinstance(a, Sym) or isinstance(b, Sym) else a == b):
            return Adt(ORD, 1, [])
        return Adt(ORD, 2, [])

    def is_signed(self, fr, *ops):
        for o in ops:
            if o['o'] == 'const':
                ty = self.T[o['c']['ty']]['s']
            elif not o['p']['p']:
                ty = self.T[fr.body['locals'][o['p']['l']]]['s']
            else:
                last = o['p']['p'][-1]
                ty = self.T[last['t']]['s'] if last['e'] == 'field' else None
                if last['e'] == 'deref':
                    t = self.T[last['t']]
                    ty = self.T[t['t']]['s'] if t['k'] in ('ref', 'ptr') else None
            if ty:
                return ty.startswith('i')
        return False


UNLOADED = S('unloaded')


def v_origin(v):
    return S('obj')


def signed(val, ty):
    if ty.startswith('i'):
        bits = int(ty[1:]) if ty[1:].isdigit() else 64
        if val >= 1 << (bits - 1):
            return val - (1 << bits)
    return val
