"""Terms, facts and path partitioning of the abstract interpreter.

Values of the analysed program are abstracted by provenance terms (Sym): "the `name` of parameter 0 of this
signature", "the literal `get_` followed by the attribute name".  A fact is the truth value of one atomic predicate
over such terms that a path has passed through.  There is no solver: a predicate is either implied by simple
syntactic rules from the recorded facts, or the analysis splits the path and analyses both sides."""
import sys
sys.setrecursionlimit(20000)


class Panic(Exception):
    def __init__(self, kind, msg='', site=None, fn=None, cause=None):
        super().__init__('%s: %s at %s' % (kind, msg, site))
        self.kind, self.msg, self.site, self.fn, self.cause = kind, msg, site, fn, cause


class Undecided(Exception):
    """The analysis cannot continue on this path (construct outside its contracts, or step budget)."""


class Infeasible(Exception):
    """The path's facts contradict each other."""


class Stop(Exception):
    """The analysis needs nothing beyond this point of the path."""


class Sym:
    __slots__ = ('op', 'args', 'ty', '_s')
    table = {}

    def __repr__(self):
        s = getattr(self, '_s', None)
        if s is None:
            s = self._s = self.op + ('(' + ', '.join(show(a) for a in self.args) + ')' if self.args else '')
        return s


def S(op, *args, ty=None):
    k = (op,) + tuple((type(a), a) if isinstance(a, (bool, int)) else a for a in args)
    r = Sym.table.get(k)
    if r is None:
        r = object.__new__(Sym)
        r.op, r.args, r.ty, r._s = op, args, ty, None
        Sym.table[k] = r
    elif r.ty is None:
        r.ty = ty
    return r


def show(a):
    return repr(a) if isinstance(a, (str, Sym, int, bool)) else str(a)


# ---------------------------------------------------------------- abstract strings
def cat(*parts):
    out = []
    for p in parts:
        if isinstance(p, Sym) and p.op == 'cat':
            ps = p.args
        else:
            ps = (p,)
        for q in ps:
            if q == '' and isinstance(q, str):
                continue
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            else:
                out.append(q)
    if not out:
        return ''
    if len(out) == 1:
        return out[0]
    return S('cat', *out)


def parts(s):
    return s.args if isinstance(s, Sym) and s.op == 'cat' else (s,)


def atoms_of(t, acc=None):
    """all Sym sub-terms"""
    if acc is None:
        acc = []
    if isinstance(t, Sym):
        acc.append(t)
        for a in t.args:
            atoms_of(a, acc)
    elif isinstance(t, tuple):
        for a in t:
            atoms_of(a, acc)
    return acc


STR_PRED = {
    'prefix': lambda s, l: s.startswith(l), 'suffix': lambda s, l: s.endswith(l), 'contains': lambda s, l: l in s,
    'empty': lambda s: s == '',
}

RUST_KW = set('''as async await break const continue crate dyn else enum extern false fn for gen if impl in let loop match mod
move mut pub ref return self Self static struct super trait true type unsafe use where while abstract become box do final
macro override priv try typeof unsized virtual yield _'''.split()) - {'gen'}


def ident_lexes(s):
    """syn's `Ident: Parse` on a whole string (contract of syn::parse_str::<Ident>): a lexically valid identifier that is
    not a keyword; `r#` in front of anything but the path keywords and `_`"""
    raw = s.startswith('r#')
    b = s[2:] if raw else s
    if not b or not b.isidentifier() or not b.isprintable():
        return False
    if raw:
        return b not in ('self', 'Self', 'super', 'crate', '_')
    return b not in RUST_KW


def negate(t):
    if isinstance(t, bool):
        return not t
    if t.op == 'not':
        return t.args[0]
    return S('not', t)


CMP = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'eq': lambda a, b: a == b}


class Path:
    """one path of the partition: its facts, its decisions and its events"""

    def __init__(self, prefix, policy):
        self.prefix, self.policy = prefix, policy
        self.trace = []          # (choice, n, label)
        self.facts = {}          # atom -> bool
        self.bysym = {}          # Sym -> [(atom,bool)]
        self.bind = {}           # Sym -> constant
        self.iv = {}             # Sym -> [lo,hi]
        self.events = []
        self.log = []            # ('fact',atom,val) | ('ev',Event)
        self.memo = {}
        self.steps = 0
        self.counter = 0

    def fresh(self):
        self.counter += 1
        return self.counter

    # ---- splitting
    def choose(self, n, label=''):
        if n == 1:
            return 0
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((c, n, label))
        return c

    def split(self, options, label=''):
        return options[self.choose(len(options), label)]

    # ---- facts
    def known(self, t):
        """three-valued truth of a term under the facts of this path"""
        if isinstance(t, bool):
            return t
        if not isinstance(t, Sym):
            raise Undecided('truth of %r' % (t,))
        if t in self.bind:
            b = self.bind[t]
            if isinstance(b, bool):
                return b
        op, a = t.op, t.args
        if op == 'not':
            v = self.known(a[0])
            return None if v is None else not v
        if op in ('and', 'or'):
            x, y = self.known(a[0]), self.known(a[1])
            if op == 'and':
                return False if x is False or y is False else (True if x and y else None)
            return True if x or y else (False if x is False and y is False else None)
        v = self.facts.get(t)
        if v is not None:
            return v
        if op == 'eq':
            return self.known_eq(*a)
        if op in ('prefix', 'suffix', 'contains'):
            return self.known_str(op, *a)
        if op in ('lt', 'le'):
            return self.known_cmp(op, *a)
        if op == 'empty':
            return self.known_eq(a[0], '')
        if op == 'valid_ident':
            return self.known_ident(a[0])
        if op == 'identcont':
            return self.known_cont(a[0])
        if op == 'subclass' or op == 'isinstance':
            return self.policy.theory(self, t) if hasattr(self.policy, 'theory') else None
        th = getattr(self.policy, 'theory', None)
        return th(self, t) if th else None

    def val(self, s):
        """a string/int term with its bound parts replaced"""
        if isinstance(s, Sym):
            if s in self.bind:
                return self.bind[s]
            if s.op == 'cat':
                ps = [self.val(p) for p in s.args]
                return cat(*ps)
        return s

    def known_eq(self, a, b):
        a, b = self.val(a), self.val(b)
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return a == b
        if a is b:
            return True
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool):
                a, b = b, a
            k = self.known(a)
            return None if k is None else k == b
        if isinstance(a, int) or isinstance(b, int):
            if isinstance(a, int):
                a, b = b, a
            base, off = lin(a)
            lo, hi = self.range(base)
            if isinstance(b, int):
                c = b - off
                if (lo is not None and c < lo) or (hi is not None and c > hi):
                    return False
                if lo is not None and lo == hi == c:
                    return True
            r = self.facts.get(S('eq', base, b - off))
            return r
        if isinstance(a, str):
            a, b = b, a
        r = self.facts.get(mk_eq(a, b))
        if r is not None:
            return r
        # strip common ends of concatenations
        pa, pb = list(parts(a)), list(parts(b))
        if len(pa) > 1 or len(pb) > 1:
            ok, pa, pb = strip_common(pa, pb)
            if not ok:
                return False
            na, nb = cat(*pa), cat(*pb)
            if (na, nb) != (a, b):
                return self.known_eq(na, nb)
            for x, y in ((pa, pb), (pb, pa)):
                if not y and any(isinstance(q, str) and q for q in x):
                    return False
            if not pa or not pb:
                rest = pa or pb
                if len(rest) == 1:
                    return self.known_eq(rest[0], '')
        if isinstance(b, str):
            for atom, val in self.bysym.get(a, ()):
                c = conc(atom, a, b)
                if c is not None and c != val:
                    return False
            d = self.domain(a, b)
            if d is not None:
                return d
        else:
            th = getattr(self.policy, 'theory', None)
            if th:
                return th(self, mk_eq(a, b))
        return None

    def domain(self, a, c):
        """facts every string of this provenance satisfies (contracts of CPython / of the engine's own constructors)"""
        if isinstance(a, Sym) and a.op == 'pyseg' and ('.' in c or c == ''):
            return False
        return None

    def known_str(self, op, s, l):
        s = self.val(s)
        l = self.val(l)
        if l == '':
            return True
        if isinstance(s, str) and isinstance(l, str):
            return STR_PRED[op](s, l)
        if not isinstance(l, str) or not isinstance(s, Sym):
            return None
        ps = parts(s)
        if len(ps) > 1:
            if op == 'prefix' and isinstance(ps[0], str):
                p = ps[0]
                if p.startswith(l):
                    return True
                if not l.startswith(p):
                    return False
                return self.known_str('prefix', cat(*ps[1:]), l[len(p):])
            if op == 'suffix' and isinstance(ps[-1], str):
                p = ps[-1]
                if p.endswith(l):
                    return True
                if not l.endswith(p):
                    return False
                return self.known_str('suffix', cat(*ps[:-1]), l[:-len(p)])
            if op == 'contains':
                if any(isinstance(p, str) and l in p for p in ps):
                    return True
                if any(isinstance(p, Sym) and self.known_str('contains', p, l) for p in ps):
                    return True
                if len(l) == 1 and all(self.known_str('contains', p, l) is False for p in ps):
                    return False
            return None
        for atom, val in self.bysym.get(s, ()):
            if atom.op == op and isinstance(atom.args[1], str):
                m = atom.args[1]
                if val:
                    if op == 'prefix':
                        if m.startswith(l):
                            return True
                        if not l.startswith(m):
                            return False
                    elif op == 'suffix':
                        if m.endswith(l):
                            return True
                        if not l.endswith(m):
                            return False
                    elif l in m:
                        return True
                else:
                    if op == 'prefix' and l.startswith(m):
                        return False
                    if op == 'suffix' and l.endswith(m):
                        return False
                    if op == 'contains' and m in l:
                        return False
            elif atom.op in ('prefix', 'suffix') and op == 'contains' and val and isinstance(atom.args[1], str) and l in atom.args[1]:
                return True
            elif atom.op == 'contains' and not val and op in ('prefix', 'suffix') and isinstance(atom.args[1], str) and atom.args[1] in l:
                return False
            elif atom.op in ('eq', 'empty') and val and op in STR_PRED:
                c = atom.args[1] if atom.op == 'eq' else ''
                if isinstance(c, str):
                    return STR_PRED[op](c, l)
        if isinstance(s, Sym) and s.op == 'pyseg' and '.' in l:
            return False
        th = getattr(self.policy, 'theory', None)
        if th:
            return th(self, S(op, s, l))
        return None

    def known_ident(self, s):
        s = self.val(s)
        if isinstance(s, str):
            return ident_lexes(s)
        if isinstance(s, Sym) and s.op == 'rs':      # the engine's escaped spelling of a Python name
            th = getattr(self.policy, 'theory', None)
            return th(self, S('valid_ident', s)) if th else None
        ps = parts(s)
        if len(ps) > 1 and isinstance(ps[0], str):
            if ident_lexes(ps[0] + '0'):
                return self.known_cont(cat(*ps[1:]))
            return False
        return None

    def known_cont(self, s):
        s = self.val(s)
        if isinstance(s, str):
            return ('a' + s).isidentifier()
        v = self.facts.get(S('identcont', s))
        if v is not None:
            return v
        vs = [self.known_cont(p) if isinstance(p, str) else self.facts.get(S('identcont', p), True if self.facts.get(S('valid_ident', p)) and not self.facts.get(S('prefix', p, 'r#')) else None) for p in parts(s)]
        if any(v is False for v in vs):
            return False
        if all(v is True for v in vs):
            return True
        th = getattr(self.policy, 'theory', None)
        return th(self, S('identcont', s)) if th else None

    def range(self, x):
        if isinstance(x, int):
            return (x, x)
        if x in self.bind and isinstance(self.bind[x], int):
            return (self.bind[x],) * 2
        r = self.iv.get(x)
        if r:
            return tuple(r)
        if isinstance(x, Sym):
            if x.op in ('len', 'count', 'find', 'slen', 'usize'):
                return (0, None)
            if x.op == 'add':
                a, b = self.range(x.args[0]), self.range(x.args[1])
                return (None if a[0] is None or b[0] is None else a[0] + b[0], None if a[1] is None or b[1] is None else a[1] + b[1])
            if x.op == 'sub':
                a, b = self.range(x.args[0]), self.range(x.args[1])
                return (None if a[0] is None or b[1] is None else a[0] - b[1], None if a[1] is None or b[0] is None else a[1] - b[0])
        return (None, None)

    def known_cmp(self, op, a, b):
        a, b = self.val(a), self.val(b)
        if isinstance(a, int) and isinstance(b, int):
            return CMP[op](a, b)
        if a is b:
            return op == 'le'
        ba, oa = lin(a)
        bb, ob = lin(b)
        if ba is bb and ba is not None:
            return CMP[op](oa, ob)
        (la, ha), (lb, hb) = self.range(a), self.range(b)
        if op == 'lt':
            if ha is not None and lb is not None and ha < lb:
                return True
            if la is not None and hb is not None and la >= hb:
                return False
        else:
            if ha is not None and lb is not None and ha <= lb:
                return True
            if la is not None and hb is not None and la > hb:
                return False
        # opposite comparison recorded
        o = self.facts.get(S('le' if op == 'lt' else 'lt', b, a))
        if o is not None:
            return not o
        if op == 'le' and self.facts.get(S('lt', a, b)):
            return True
        if op == 'le' and self.facts.get(mk_eq(a, b)):
            return True
        return None

    def assume(self, t, v):
        if isinstance(t, bool):
            if t != v:
                raise Infeasible(str(t))
            return
        if t.op == 'not':
            return self.assume(t.args[0], not v)
        if t.op == 'and' and v:
            self.assume(t.args[0], True)
            return self.assume(t.args[1], True)
        if t.op == 'or' and not v:
            self.assume(t.args[0], False)
            return self.assume(t.args[1], False)
        k = self.known(t)
        if k is not None:
            if k != v:
                raise Infeasible(repr(t))
            return
        if t.op == 'empty':
            t = S('eq', t.args[0], '')
        self.record(t, v)
        if t.op == 'eq':
            a, b = self.val(t.args[0]), self.val(t.args[1])
            if isinstance(a, (str, int)) and isinstance(b, Sym):
                a, b = b, a
            if isinstance(a, Sym) and isinstance(b, (str, int)):
                if isinstance(b, str):
                    # reduce concatenations to their unknown part
                    ok, pa, pb = strip_common(list(parts(a)), [b])
                    if ok and len(pa) == 1 and isinstance(pa[0], Sym) and pa[0] is not a:
                        r = cat(*pb)
                        self.record(S('eq', pa[0], r), v)
                        a, b = pa[0], r
                if v:
                    if isinstance(b, str) or isinstance(b, bool):
                        self.bind[a] = b
                    else:
                        base, off = lin(a)
                        self.iv[base] = [b - off, b - off]
                        self.bind[base] = b - off
                elif isinstance(b, int) and not isinstance(b, bool):
                    base, off = lin(a)
                    lo, hi = self.range(base)
                    c = b - off
                    if lo is not None and lo == c:
                        self.iv[base] = [c + 1, hi]
                    elif hi is not None and hi == c:
                        self.iv[base] = [lo, c - 1]
        elif t.op in ('lt', 'le'):
            a, b = t.args
            if not v:            # not(a<b) = b<=a ; not(a<=b) = b<a
                a, b = b, a
                op = 'le' if t.op == 'lt' else 'lt'
            else:
                op = t.op
            d = 1 if op == 'lt' else 0
            ba, oa = lin(a)
            bb, ob = lin(b)
            rb, ra = self.range(b), self.range(a)
            if isinstance(ba, Sym) and rb[1] is not None:
                lo, hi = self.range(ba)
                n = rb[1] - d - oa
                self.iv[ba] = [lo, n if hi is None else min(hi, n)]
            if isinstance(bb, Sym) and ra[0] is not None:
                lo, hi = self.range(bb)
                n = ra[0] + d - ob
                self.iv[bb] = [n if lo is None else max(lo, n), hi]
        elif t.op in ('prefix', 'suffix') and isinstance(t.args[0], Sym) and t.args[0].op == 'cat':
            s, l = t.args[0], t.args[1]
            ps = s.args
            if t.op == 'prefix' and isinstance(ps[0], str) and len(l) > len(ps[0]):
                self.record(S('prefix', cat(*ps[1:]), l[len(ps[0]):]), v)
            if t.op == 'suffix' and isinstance(ps[-1], str) and len(l) > len(ps[-1]):
                self.record(S('suffix', cat(*ps[:-1]), l[:-len(ps[-1])]), v)
        elif t.op == 'valid_ident':
            ps = parts(t.args[0])
            if len(ps) > 1 and isinstance(ps[0], str):
                self.record(S('identcont', cat(*ps[1:])), v)

    def record(self, t, v):
        self.facts[t] = v
        self.log.append(('fact', t, v))
        for a in t.args:
            if isinstance(a, Sym):
                self.bysym.setdefault(a, []).append((t, v))

    def decide(self, t, label=''):
        if isinstance(t, bool):
            return t
        if isinstance(t, int):
            return t != 0
        k = self.known(t)
        if k is not None:
            return k
        f = getattr(self.policy, 'force', None)
        if f:
            v = f(self, t)
            if v is not None:
                self.assume(t, v)
                return v
        if t.op == 'not':
            return not self.decide(t.args[0])
        if t.op == 'or':
            return True if self.decide(t.args[0]) else self.decide(t.args[1])
        if t.op == 'and':
            return self.decide(t.args[1]) if self.decide(t.args[0]) else False
        pref = [True, False]
        v = self.split(pref, repr(t)[:200])
        self.assume(t, v)
        return v


def mk_eq(a, b):
    if isinstance(a, (str, int)) and isinstance(b, Sym):
        a, b = b, a
    elif isinstance(a, Sym) and isinstance(b, Sym) and repr(b) < repr(a):
        a, b = b, a
    return S('eq', a, b)


def lin(x):
    """x = base + offset"""
    if isinstance(x, int):
        return None, x
    if isinstance(x, Sym) and x.op == 'add' and isinstance(x.args[1], int):
        b, o = lin(x.args[0])
        return b, o + x.args[1]
    return x, 0


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        base, o = lin(a)
        return base if o + b == 0 else S('add', base, o + b)
    return S('add', a, b)


def sub(a, b):
    if isinstance(b, int):
        return a - b if isinstance(a, int) else add(a, -b)
    if a is b:
        return 0
    return S('sub', a, b)


def strip_common(pa, pb):
    pa, pb = list(pa), list(pb)
    for front in (True, False):
        while pa and pb:
            i = 0 if front else -1
            x, y = pa[i], pb[i]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if front:
                    if x[:n] != y[:n]:
                        return False, pa, pb
                    for p, q in ((pa, x), (pb, y)):
                        p[0] = q[n:]
                        if not p[0]:
                            p.pop(0)
                else:
                    if n and x[-n:] != y[-n:]:
                        return False, pa, pb
                    for p, q in ((pa, x), (pb, y)):
                        p[-1] = q[:len(q) - n]
                        if not p[-1]:
                            p.pop()
                if n == 0:
                    break
            elif x is y:
                pa.pop(i)
                pb.pop(i)
            else:
                break
    return True, pa, pb


def conc(atom, s, c):
    """truth of `atom` when the string s is the constant c"""
    op, a = atom.op, atom.args
    if op in STR_PRED and a[0] is s and all(isinstance(x, str) for x in a[1:]):
        return STR_PRED[op](c, *a[1:])
    if op == 'eq':
        if a[0] is s and isinstance(a[1], str):
            return a[1] == c
    if op == 'valid_ident' and a[0] is s:
        return ident_lexes(c)
    if op == 'identcont' and a[0] is s:
        return ('a' + c).isidentifier()
    return None


class Policy:
    """what an analysis fixes in advance; everything else is split"""
    max_steps = 400000
    loop_bound = {}      # function name suffix -> visits of one block allowed per call (paths that loop longer are cut off)
    lengths_default = (0, 1)

    def lengths(self, path, sym):
        return self.lengths_default

    def outcomes(self, path, ev):
        return ('ok', 'err')

    def opaque(self, interp, name, body, args):
        return None

    def force(self, path, t):
        return None

    def theory(self, path, t):
        return None


def explore(run, policy, max_paths=20000, prefix0=()):
    """enumerate the path partition of run(path)"""
    stack = [list(prefix0)]
    n = 0
    while stack:
        pre = stack.pop()
        p = Path(pre, policy)
        try:
            out = ('ret', run(p))
        except Panic as e:
            out = ('panic', e)
        except Infeasible as e:
            out = ('infeasible', e)
        except Undecided as e:
            out = ('undecided', e)
        except Stop as e:
            out = ('stop', e)
        tr = [t[0] for t in p.trace]
        for i in range(len(p.trace) - 1, len(pre) - 1, -1):
            for alt in range(1, p.trace[i][1]):
                stack.append(tr[:i] + [alt])
        n += 1
        if out[0] != 'infeasible':
            yield p, out
        if n >= max_paths and stack:
            yield None, ('budget', len(stack))
            return
