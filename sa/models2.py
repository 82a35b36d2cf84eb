"""Contracts of the less used std and itertools functions. Exact on known values; Undecided otherwise."""
import functools, re, unicodedata
from core import *
from interp import *
from models import *
from models import M, model, END, IT, V, SL, HM, HS

N = {}                       # contracts by name without generic parameters


def nmodel(*names):
    def d(f):
        for n in names:
            N[n] = f
        return f
    return d


def last(ref):
    return ref['name'].split('::')[-1]


def num(v, what='number'):
    if isinstance(v, int):
        return v
    raise Undecided('symbolic ' + what)


def conc(I, v, what='string'):
    s = sv(I, v)
    if isinstance(s, str):
        return s
    raise Undecided('%s of an unknown string' % what)


# ---------------------------------------------------------------- iterators
@nmodel(IT + 'product')
def _(I, a, ref, rt):
    r = 1
    for x in it_of(I, a[0]).drain(I):
        r *= num(I.deref(x))
    return r


def extreme(I, xs, c, mx):
    """last maximum / first minimum, as Iterator::max_by and min_by define them"""
    b = xs[0]
    for x in xs[1:]:
        r = c(b, x)
        if (r <= 0) if mx else (r > 0):
            b = x
    return b


@nmodel(IT + 'max_by_key', IT + 'min_by_key')
def _(I, a, ref, rt):
    xs = [(I.call_value(a[1], [Ref([x])]), x) for x in it_of(I, a[0]).drain(I)]
    return some(extreme(I, xs, lambda p, q: cmp_values(I, p[0], q[0]), 'max' in ref['name'])[1]) if xs else none()


@nmodel(IT + 'max_by', IT + 'min_by')
def _(I, a, ref, rt):
    xs = it_of(I, a[0]).drain(I)
    return some(extreme(I, xs, lambda p, q: I.call_value(a[1], [Ref([p]), Ref([q])]).v - 1, 'max' in ref['name'])) if xs else none()


@nmodel(IT + 'cycle')
def _(I, a, ref, rt):
    xs = it_of(I, a[0]).drain(I)
    st = [0]

    def step(I):
        if not xs:
            return END
        st[0] += 1
        return clone(I, xs[(st[0] - 1) % len(xs)]) if not isinstance(xs[0], Ref) else xs[(st[0] - 1) % len(xs)]
    return FnIt(step)


@nmodel(IT + 'is_sorted', SL + 'is_sorted')
def _(I, a, ref, rt):
    xs = it_of(I, a[0]).drain(I)
    return all(cmp_values(I, p, q) <= 0 for p, q in zip(xs, xs[1:]))


@nmodel(SL + 'is_sorted_by_key')
def _(I, a, ref, rt):
    xs = [I.call_value(a[1], [Ref([x])]) for x in it_of(I, a[0]).drain(I)]
    return all(cmp_values(I, p, q) <= 0 for p, q in zip(xs, xs[1:]))


@nmodel(IT + 'cmp', IT + 'partial_cmp')
def _(I, a, ref, rt):
    c = Adt(ORD, cmp_values(I, Lst(it_of(I, a[0]).drain(I)), Lst(it_of(I, a[1]).drain(I))) + 1, [])
    return some(c) if 'partial' in ref['name'] else c


@nmodel(IT + 'ne')
def _(I, a, ref, rt):
    return negate(M[IT + 'eq'](I, a, ref, rt))


@nmodel(IT + 'lt', IT + 'le', IT + 'gt', IT + 'ge')
def _(I, a, ref, rt):
    c = cmp_values(I, Lst(it_of(I, a[0]).drain(I)), Lst(it_of(I, a[1]).drain(I)))
    return {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0}[last(ref)]


@nmodel(IT + 'scan')
def _(I, a, ref, rt):
    it, st, f = it_of(I, a[0]), [a[1]], a[2]

    def step(I):
        x = it.next(I)
        if x is END:
            return END
        r = var(I, I.call_value(f, [Ref(st, 0), x]))
        return r.f[0] if good(r) else END
    return FnIt(step)


@nmodel('core::iter::adapters::peekable::Peekable::next_if', 'core::iter::adapters::peekable::Peekable::next_if_eq')
def _(I, a, ref, rt):
    p = var(I, M["core::iter::adapters::peekable::Peekable::<I>::peek"](I, [a[0]], ref, rt))
    if not good(p):
        return none()
    t = I.call_value(a[1], [p.f[0]]) if last(ref) == 'next_if' else eq_term(I, p.f[0], a[1])
    if I.path.decide(t):
        return some(it_of(I, a[0]).next(I))
    return none()


# ---------------------------------------------------------------- ranges
@nmodel(*['core::ops::range::%s::contains' % k for k in ('Range', 'RangeInclusive', 'RangeFrom', 'RangeTo', 'RangeToInclusive')],
        'core::ops::range::RangeBounds::contains')
def _(I, a, ref, rt):
    r, x = I.deref(a[0]), I.deref(a[1])
    k = r.p.split('::')[-1]
    lo = r.f[0] if k in ('Range', 'RangeInclusive', 'RangeFrom') else None
    hi = r.f[1] if k in ('Range', 'RangeInclusive') else r.f[0] if k in ('RangeTo', 'RangeToInclusive') else None
    ts = []
    if lo is not None:
        ts.append(I.cmp('le', I.deref(lo), x))
    if hi is not None:
        ts.append(I.cmp('le' if 'Inclusive' in k else 'lt', x, I.deref(hi)))
    return and_terms(ts)


@nmodel('core::ops::range::Range::is_empty')
def _(I, a, ref, rt):
    r = I.deref(a[0])
    return negate(I.cmp('lt', r.f[0], r.f[1]))


@nmodel('core::ops::range::RangeInclusive::start', 'core::ops::range::RangeInclusive::end')
def _(I, a, ref, rt):
    return Ref(I.deref(a[0]).f, 0 if last(ref) == 'start' else 1)


# ---------------------------------------------------------------- slices and vectors
def lo_hi(I, v):
    """(backing list, lo, hi) of a slice or vector"""
    d = I.deref(v)
    if isinstance(d, Slice):
        return d.items, d.lo, d.hi
    if isinstance(d, Lst):
        return d.items, 0, len(d.items)
    l = vec(I, v)
    return l.items, 0, len(l.items)


@nmodel(SL + 'binary_search', SL + 'binary_search_by', SL + 'binary_search_by_key')
def _(I, a, ref, rt):
    items, lo0, hi0 = lo_hi(I, a[0])
    k = last(ref)

    def c(x):
        if k == 'binary_search':
            return cmp_values(I, x, a[1])
        if k == 'binary_search_by':
            return I.call_value(a[1], [Ref([x])]).v - 1
        return cmp_values(I, I.call_value(a[2], [Ref([x])]), a[1])
    cs = [c(x) for x in items[lo0:hi0]]
    if cs != sorted(cs) or cs.count(0) > 1:
        raise Undecided('binary search of an unsorted slice')
    if 0 in cs:
        return ok(cs.index(0))
    return err(sum(x < 0 for x in cs))


@nmodel(SL + 'partition_point')
def _(I, a, ref, rt):
    items, lo, hi = lo_hi(I, a[0])
    bs = [I.path.decide(I.call_value(a[1], [Ref([x])])) for x in items[lo:hi]]
    if bs != sorted(bs, reverse=True):
        raise Undecided('partition_point of an unpartitioned slice')
    return sum(bs)


@nmodel('alloc::slice::<impl [T]>::repeat')
def _(I, a, ref, rt):
    return Lst([clone(I, x) for _ in range(num(a[1])) for x in list_of(I, a[0])])


@nmodel(SL + 'split', SL + 'splitn', SL + 'split_inclusive')
def _(I, a, ref, rt):
    items, lo, hi = lo_hi(I, a[0])
    k = last(ref)
    f, n = (a[2], num(a[1])) if k == 'splitn' else (a[1], None)
    out, st = [], lo
    if n == 0:
        return ListIt([])
    for i in range(lo, hi):
        if n is not None and len(out) >= n - 1:
            break
        if I.path.decide(I.call_value(f, [Ref(items, i)])):
            out.append(Slice(items, st, i + (k == 'split_inclusive')))
            st = i + 1
    if k != 'split_inclusive' or st < hi:
        out.append(Slice(items, st, hi))
    return ListIt(out)


@nmodel(SL + 'rotate_left', SL + 'rotate_right')
def _(I, a, ref, rt):
    items, lo, hi = lo_hi(I, a[0])
    n = num(a[1])
    if n > hi - lo:
        I.panic('index', 'rotate past the end of the slice')
    x = items[lo:hi]
    k = n if last(ref) == 'rotate_left' else len(x) - n
    items[lo:hi] = x[k:] + x[:k]
    return UNIT


@nmodel(SL + 'fill')
def _(I, a, ref, rt):
    items, lo, hi = lo_hi(I, a[0])
    items[lo:hi] = [clone(I, a[1]) for _ in range(hi - lo)]
    return UNIT


@nmodel(SL + 'select_nth_unstable')
def _(I, a, ref, rt):
    raise Undecided('select_nth_unstable')


@nmodel('alloc::vec::Vec::splice')
def _(I, a, ref, rt):
    l = vec(I, a[0]).items
    lo, hi = bounds(I, a[1], len(l))
    num(lo), num(hi)
    old = l[lo:hi]
    l[lo:hi] = it_of(I, a[2]).drain(I)
    return ListIt(old)


@nmodel('alloc::vec::Vec::resize', 'alloc::vec::Vec::resize_with')
def _(I, a, ref, rt):
    l = vec(I, a[0]).items
    n = num(a[1])
    del l[n:]
    while len(l) < n:
        l.append(clone(I, a[2]) if last(ref) == 'resize' else I.call_value(a[2], []))
    return UNIT


@nmodel('alloc::vec::Vec::pop_if')
def _(I, a, ref, rt):
    l = vec(I, a[0]).items
    if l and I.path.decide(I.call_value(a[1], [Ref(l, len(l) - 1)])):
        return some(l.pop())
    return none()


@nmodel('alloc::vec::Vec::capacity')
def _(I, a, ref, rt):
    raise Undecided('capacity')


DQ = 'alloc::collections::vec_deque::VecDeque::'


@nmodel(DQ + 'len', DQ + 'is_empty')
def _(I, a, ref, rt):
    n = len(list_of(I, a[0]))
    return n if last(ref) == 'len' else n == 0


@nmodel(DQ + 'iter', DQ + 'iter_mut')
def _(I, a, ref, rt):
    return to_iter(I, a[0])


@nmodel(DQ + 'front', DQ + 'front_mut', DQ + 'back', DQ + 'back_mut', DQ + 'get')
def _(I, a, ref, rt):
    l = vec(I, a[0]).items
    k = last(ref)
    i = num(a[1]) if k == 'get' else 0 if 'front' in k else len(l) - 1
    return some(Ref(l, i)) if 0 <= i < len(l) else none()


@nmodel(DQ + 'clear')
def _(I, a, ref, rt):
    vec(I, a[0]).items.clear()
    return UNIT


@nmodel(DQ + 'extend', DQ + 'append')
def _(I, a, ref, rt):
    l = vec(I, a[0]).items
    if last(ref) == 'append':
        o = vec(I, a[1]).items
        l.extend(o)
        o.clear()
    else:
        l.extend(it_of(I, a[1]).drain(I))
    return UNIT


@nmodel(DQ + 'contains')
def _(I, a, ref, rt):
    return or_terms([eq_term(I, x, a[1]) for x in list_of(I, a[0])])


# ---------------------------------------------------------------- strings
def spans(I, s, p):
    """byte-free spans (i, j) of the matches of a pattern in a known string"""
    out, i = [], 0
    if isinstance(p, tuple):
        return [(i, i + 1) for i, c in enumerate(s) if char_matches(I, p, c)]
    if not isinstance(p, str):
        raise Undecided('unknown pattern')
    if not p:
        raise Undecided('empty pattern')
    while True:
        j = s.find(p, i)
        if j < 0:
            return out
        out.append((j, j + len(p)))
        i = j + len(p)


ST = 'core::str::<impl str>::'
AST = 'alloc::str::<impl str>::'


@nmodel(ST + 'rsplitn', ST + 'rsplit', ST + 'split_terminator', ST + 'split_inclusive', ST + 'rsplit_terminator', ST + 'rmatches')
def _(I, a, ref, rt):
    k = last(ref)
    s = conc(I, a[0], k)
    n = num(a[1]) if k == 'rsplitn' else None
    sp = spans(I, s, pattern(I, a[-1]))
    if k == 'rmatches':
        return ListIt([s[i:j] for i, j in sp[::-1]])
    if k == 'rsplitn':
        if n == 0:
            return ListIt([])
        sp = sp[len(sp) - (n - 1):] if n - 1 < len(sp) else sp
    out, st = [], 0
    for i, j in sp:
        out.append(s[st:j if k == 'split_inclusive' else i])
        st = j
    if not (k in ('split_terminator', 'split_inclusive', 'rsplit_terminator') and st == len(s)):
        out.append(s[st:])
    return ListIt(out[::-1] if k.startswith('rsplit') else out)


@nmodel(AST + 'replacen')
def _(I, a, ref, rt):
    s = conc(I, a[0], 'replacen')
    t = conc(I, a[2], 'replacen')
    out, st = '', 0
    for i, j in spans(I, s, pattern(I, a[1]))[:num(a[3])]:
        out += s[st:i] + t
        st = j
    return out + s[st:]


@nmodel(ST + 'match_indices', ST + 'rmatch_indices')
def _(I, a, ref, rt):
    s = conc(I, a[0], 'match_indices')
    r = [Tup([len(s[:i].encode()), s[i:j]]) for i, j in spans(I, s, pattern(I, a[1]))]
    return ListIt(r[::-1] if last(ref)[0] == 'r' else r)


@nmodel(AST + 'to_ascii_uppercase', ST + 'to_ascii_uppercase')
def _(I, a, ref, rt):
    s = sv(I, a[0])
    return ''.join(c.upper() if c.isascii() else c for c in s) if isinstance(s, str) else S('upper', s)


@nmodel(ST + 'make_ascii_uppercase', ST + 'make_ascii_lowercase')
def _(I, a, ref, rt):
    s = conc(I, a[0], last(ref))
    up = 'upper' in ref['name']
    return smut(I, a[0], lambda x: ''.join((c.upper() if up else c.lower()) if c.isascii() else c for c in s))


def cut(s, i):
    """the string before byte offset i, None off a character boundary"""
    b = s.encode()
    if i > len(b):
        return None
    try:
        return b[:i].decode()
    except UnicodeDecodeError:
        return None


@nmodel(ST + 'is_char_boundary')
def _(I, a, ref, rt):
    return cut(conc(I, a[0]), num(a[1])) is not None


@nmodel(ST + 'split_at', ST + 'split_at_checked')
def _(I, a, ref, rt):
    s = conc(I, a[0], 'split_at')
    p = cut(s, num(a[1]))
    if p is None:
        if 'checked' in ref['name']:
            return none()
        I.panic('string', 'split_at off a character boundary', cause=repr((s, a[1])))
    r = Tup([p, s[len(p):]])
    return some(r) if 'checked' in ref['name'] else r


@nmodel(ST + 'get')
def _(I, a, ref, rt):
    s = conc(I, a[0], 'get')
    b = s.encode()
    r = I.deref(a[1])
    k = r.p.split('::')[-1]
    lo = r.f[0] if k in ('Range', 'RangeInclusive', 'RangeFrom') else 0
    hi = r.f[1] if k in ('Range', 'RangeInclusive') else r.f[0] if k in ('RangeTo', 'RangeToInclusive') else len(b)
    hi = num(hi) + ('Inclusive' in k)
    p, q = cut(s, num(lo)), cut(s, hi)
    return none() if p is None or q is None or lo > hi else some(q[len(p):])


@nmodel(ST + 'escape_debug', ST + 'escape_default')
def _(I, a, ref, rt):
    s = conc(I, a[0], last(ref))
    out = ''
    for c in s:
        if c in '\t\r\n\'"\\':
            out += {'\t': '\\t', '\r': '\\r', '\n': '\\n', "'": "\\'", '"': '\\"', '\\': '\\\\'}[c]
        elif ' ' <= c <= '~':
            out += c
        elif c == '\0' and 'debug' in ref['name']:
            out += '\\0'
        elif 'default' in ref['name']:
            out += '\\u{%x}' % ord(c)
        else:
            raise Undecided('escape_debug of a non-ASCII character')
    return out


@nmodel('alloc::string::String::from_utf8')
def _(I, a, ref, rt):
    v = I.deref(a[0])
    if isinstance(v, (Lst, Slice)) and all(isinstance(x, int) for x in list_of(I, v)):
        try:
            return ok(bytes(list_of(I, v)).decode())
        except UnicodeDecodeError:
            return err(S('utf8error'))
    if isinstance(v, Sym) and v.op == 'bytes':
        return ok(v.args[0])
    raise Undecided('String::from_utf8')


@nmodel('alloc::string::String::replace_range')
def _(I, a, ref, rt):
    s = conc(I, a[0], 'replace_range')
    lo, hi = bounds(I, a[1], len(s.encode()))
    p, q = cut(s, num(lo)), cut(s, num(hi))
    if p is None or q is None:
        I.panic('string', 'replace_range off a character boundary')
    t = sv(I, a[2])
    return smut(I, a[0], lambda x: cat(p, t, s[len(q):]))


@nmodel('alloc::string::String::drain')
def _(I, a, ref, rt):
    s = conc(I, a[0], 'drain')
    lo, hi = bounds(I, a[1], len(s.encode()))
    p, q = cut(s, num(lo)), cut(s, num(hi))
    if p is None or q is None:
        I.panic('string', 'drain off a character boundary')
    smut(I, a[0], lambda x: p + s[len(q):])
    return ListIt([ord(c) for c in q[len(p):]])


@nmodel('alloc::string::String::split_off')
def _(I, a, ref, rt):
    s = conc(I, a[0], 'split_off')
    p = cut(s, num(a[1]))
    if p is None:
        I.panic('string', 'split_off off a character boundary')
    smut(I, a[0], lambda x: p)
    return s[len(p):]


RANGES = {'i8': (-2**7, 2**7), 'i16': (-2**15, 2**15), 'i32': (-2**31, 2**31), 'i64': (-2**63, 2**63), 'isize': (-2**63, 2**63), 'i128': (-2**127, 2**127),
          'u8': (0, 2**8), 'u16': (0, 2**16), 'u32': (0, 2**32), 'u64': (0, 2**64), 'usize': (0, 2**64), 'u128': (0, 2**128)}


@nmodel(ST + 'parse', 'core::str::traits::FromStr::from_str')
def _(I, a, ref, rt):
    t = rttype(I, rt)
    if t.get('p') != RESULT:
        raise Undecided('parse')
    e = I.T[t['a'][0]]['s']
    s = sv(I, a[0])
    if e == 'alloc::string::String':
        return ok(s)
    if not isinstance(s, str):
        raise Undecided('parse of an unknown string')
    if e in RANGES:
        lo, hi = RANGES[e]
        if re.fullmatch(r'\+?[0-9]+' if lo == 0 else r'[+-]?[0-9]+', s) and lo <= int(s) < hi:
            return ok(int(s))
        return err(S('parseerr', s))
    if e == 'bool':
        return ok(s == 'true') if s in ('true', 'false') else err(S('parseerr', s))
    if e == 'char':
        return ok(ord(s)) if len(s) == 1 else err(S('parseerr', s))
    raise Undecided('parse into ' + e)


# ---------------------------------------------------------------- characters
CH = 'core::char::methods::<impl char>::'


@nmodel(CH + 'to_ascii_uppercase', CH + 'to_ascii_lowercase')
def _(I, a, ref, rt):
    c = num(I.deref(a[0]), 'character')
    return ord((chr(c).upper() if 'upper' in ref['name'] else chr(c).lower())) if c < 128 else c


@nmodel(CH + 'to_uppercase', CH + 'to_lowercase')
def _(I, a, ref, rt):
    c = chr(num(I.deref(a[0]), 'character'))
    r = c.upper() if 'upper' in ref['name'] else c.lower()
    if not c.isascii():
        raise Undecided('case of a non-ASCII character')
    return ListIt([ord(x) for x in r])


@nmodel(CH + 'from_digit')
def _(I, a, ref, rt):
    d, r = num(a[0]), num(a[1])
    return some(ord('0123456789abcdefghijklmnopqrstuvwxyz'[d])) if d < r else none()


@nmodel(CH + 'to_digit')
def _(I, a, ref, rt):
    c, r = num(I.deref(a[0])), num(a[1])
    d = '0123456789abcdefghijklmnopqrstuvwxyz'.find(chr(c).lower()) if c < 128 else -1
    return some(d) if 0 <= d < r else none()


@nmodel(CH + 'is_digit')
def _(I, a, ref, rt):
    c, r = num(I.deref(a[0])), num(a[1])
    return c < 128 and 0 <= '0123456789abcdefghijklmnopqrstuvwxyz'.find(chr(c).lower()) < r


@nmodel(CH + 'len_utf8')
def _(I, a, ref, rt):
    return len(chr(num(I.deref(a[0]))).encode())


def asciis(p):
    def f(I, a, ref, rt):
        c = I.deref(a[0])
        if isinstance(c, int):
            return c < 128 and bool(p(chr(c)))
        raise Undecided('class of an unknown character')
    return f


for _n, _p in (('is_ascii', lambda c: True), ('is_ascii_alphabetic', str.isalpha), ('is_ascii_uppercase', str.isupper), ('is_ascii_lowercase', str.islower),
               ('is_ascii_punctuation', lambda c: '!' <= c <= '~' and not c.isalnum()), ('is_ascii_whitespace', lambda c: c in ' \t\n\x0c\r'),
               ('is_ascii_hexdigit', lambda c: c in '0123456789abcdefABCDEF'), ('is_ascii_graphic', lambda c: '!' <= c <= '~'),
               ('is_ascii_control', lambda c: c < ' ' or c == '\x7f'), ('is_ascii_alphanumeric', str.isalnum), ('is_ascii_digit', str.isdigit)):
    for _q in (CH, 'core::num::<impl u8>::'):
        N.setdefault(_q + _n, asciis(_p))


@nmodel(CH + 'is_control')
def _(I, a, ref, rt):
    return unicodedata.category(chr(num(I.deref(a[0]), 'character'))) == 'Cc'


# ---------------------------------------------------------------- maps and sets
@nmodel('std::collections::hash::map::HashMap::retain', 'alloc::collections::btree::map::BTreeMap::retain')
def _(I, a, ref, rt):
    h = hm(I, a[0])
    keep = [i for i in range(len(h.keys)) if I.path.decide(I.call_value(a[1], [Ref(h.keys, i), Ref(h.vals, i)]))]
    h.keys[:], h.vals[:] = [h.keys[i] for i in keep], [h.vals[i] for i in keep]
    return UNIT


@nmodel('std::collections::hash::set::HashSet::retain', 'alloc::collections::btree::set::BTreeSet::retain')
def _(I, a, ref, rt):
    h = hm(I, a[0])
    h.keys[:] = [h.keys[i] for i in range(len(h.keys)) if I.path.decide(I.call_value(a[1], [Ref(h.keys, i)]))]
    return UNIT


@nmodel('std::collections::hash::map::HashMap::get_key_value', 'alloc::collections::btree::map::BTreeMap::get_key_value')
def _(I, a, ref, rt):
    h = hm(I, a[0])
    i = hmap_find(I, h, a[1])
    return none() if i is None else some(Tup([Ref(h.keys, i), Ref(h.vals, i)]))


@nmodel('std::collections::hash::map::HashMap::remove_entry', 'alloc::collections::btree::map::BTreeMap::remove_entry')
def _(I, a, ref, rt):
    h = hm(I, a[0])
    i = hmap_find(I, h, a[1])
    return none() if i is None else some(Tup([h.keys.pop(i), h.vals.pop(i)]))


@nmodel('std::collections::hash::set::HashSet::get', 'alloc::collections::btree::set::BTreeSet::get')
def _(I, a, ref, rt):
    h = hm(I, a[0])
    i = hmap_find(I, h, a[1])
    return none() if i is None else some(Ref(h.keys, i))


@nmodel('std::collections::hash::set::HashSet::replace')
def _(I, a, ref, rt):
    h = hm(I, a[0])
    i = hmap_find(I, h, a[1])
    if i is None:
        h.keys.append(a[1])
        return none()
    old, h.keys[i] = h.keys[i], a[1]
    return some(old)


@nmodel('std::collections::hash::set::HashSet::symmetric_difference', 'alloc::collections::btree::set::BTreeSet::symmetric_difference')
def _(I, a, ref, rt):
    x, y = hm(I, a[0]), hm(I, a[1])
    note_hash_iter(I, x)
    out = []
    for p, q in ((x, y), (y, x)):
        out += [Ref(p.keys, i) for i in range(len(p.keys)) if hmap_find(I, q, p.keys[i]) is None]
    return ListIt(out)


@nmodel('std::collections::hash::map::HashMap::clear', 'std::collections::hash::set::HashSet::clear', 'alloc::collections::btree::map::BTreeMap::clear',
        'alloc::collections::btree::set::BTreeSet::clear')
def _(I, a, ref, rt):
    h = hm(I, a[0])
    h.keys.clear()
    if not h.is_set:
        h.vals.clear()
    return UNIT


BM, BS = 'alloc::collections::btree::map::BTreeMap::', 'alloc::collections::btree::set::BTreeSet::'


@nmodel(BM + 'first_key_value', BM + 'last_key_value')
def _(I, a, ref, rt):
    h = hm(I, a[0])
    i = 0 if 'first' in ref['name'] else len(h.keys) - 1
    return some(Tup([Ref(h.keys, i), Ref(h.vals, i)])) if h.keys else none()


@nmodel(BM + 'pop_first', BM + 'pop_last')
def _(I, a, ref, rt):
    h = hm(I, a[0])
    i = 0 if 'first' in ref['name'] else -1
    return some(Tup([h.keys.pop(i), h.vals.pop(i)])) if h.keys else none()


@nmodel(BS + 'first', BS + 'last', BS + 'pop_first', BS + 'pop_last')
def _(I, a, ref, rt):
    h = hm(I, a[0])
    i = 0 if 'first' in ref['name'] else len(h.keys) - 1
    if not h.keys:
        return none()
    return some(h.keys.pop(i)) if 'pop' in ref['name'] else some(Ref(h.keys, i))


for _k in list(M):
    for _p, _b in ((HM, BM), (HS, BS)):
        if _k.startswith(_p):
            N.setdefault(_b + _k[len(_p):], M[_k])
for _b in (BM, BS):
    for _n in ('len', 'is_empty'):
        N[_b + _n] = M[HM + _n]
    for _n in ('iter', 'iter_mut'):
        N[_b + _n] = M[HM + 'iter']

ENTRY = {'std::collections::hash::map::Entry': (0, 1), 'alloc::collections::btree::map::entry::Entry': (1, 0)}


def entry(I, a, ref, rt):
    h = hm(I, a[0])
    i = hmap_find(I, h, a[1])
    p = 'std::collections::hash::map::Entry' if 'hash::map' in ref['name'] else 'alloc::collections::btree::map::entry::Entry'
    return Adt(p, ENTRY[p][0 if i is not None else 1], [Adt('EntrySlot', 0, [h, a[1], i])])


N['std::collections::hash::map::HashMap::entry'] = N[BM + 'entry'] = entry
M.pop(HM + 'entry', None)
M.pop('alloc::collections::btree::map::BTreeMap::<K, V, A>::entry', None)


def slot(I, e):
    e = I.deref(e)
    if e.p == 'EntrySlot':
        return e
    return e.f[0]


def put(I, s, v):
    h, k, i = s.f
    if i is not None:
        h.vals[i] = v
        return i
    h.keys.append(k)
    h.vals.append(v)
    i = len(h.keys) - 1
    if h.hasher == 'ordered':
        sorted_map(I, h)
        i = next(j for j, x in enumerate(h.keys) if x is k or I.freeze(x) == I.freeze(k))
    s.f[2] = i
    I.event('map_insert', '', (k, v))
    return i


for _e in ENTRY:
    _base = _e[:-5]

    @nmodel(*[_e + '::' + n for n in ('or_default', 'or_insert', 'or_insert_with', 'or_insert_with_key')])
    def _(I, a, ref, rt):
        s = slot(I, a[0])
        if s.f[2] is None:
            n = last(ref)
            t = rttype(I, rt)
            v = default_of(I, I.T[t['t']]) if n == 'or_default' else a[1] if n == 'or_insert' else I.call_value(a[1], [] if n == 'or_insert_with' else [Ref(s.f, 1)])
            put(I, s, v)
        return Ref(s.f[0].vals, s.f[2])

    @nmodel(_e + '::and_modify')
    def _(I, a, ref, rt):
        s = slot(I, a[0])
        if s.f[2] is not None:
            I.call_value(a[1], [Ref(s.f[0].vals, s.f[2])])
        return a[0]

    @nmodel(_e + '::key', _base + 'OccupiedEntry::key', _base + 'VacantEntry::key')
    def _(I, a, ref, rt):
        return Ref(slot(I, a[0]).f, 1)

    @nmodel(_base + 'VacantEntry::into_key')
    def _(I, a, ref, rt):
        return slot(I, a[0]).f[1]

    @nmodel(_e + '::insert_entry', _base + 'VacantEntry::insert_entry')
    def _(I, a, ref, rt):
        s = slot(I, a[0])
        put(I, s, a[1])
        return s

    @nmodel(_base + 'VacantEntry::insert')
    def _(I, a, ref, rt):
        s = slot(I, a[0])
        return Ref(s.f[0].vals, put(I, s, a[1]))

    @nmodel(_base + 'OccupiedEntry::get', _base + 'OccupiedEntry::get_mut', _base + 'OccupiedEntry::into_mut')
    def _(I, a, ref, rt):
        s = slot(I, a[0])
        return Ref(s.f[0].vals, s.f[2])

    @nmodel(_base + 'OccupiedEntry::insert')
    def _(I, a, ref, rt):
        s = slot(I, a[0])
        old = s.f[0].vals[s.f[2]]
        put(I, s, a[1])
        return old

    @nmodel(_base + 'OccupiedEntry::remove', _base + 'OccupiedEntry::remove_entry')
    def _(I, a, ref, rt):
        s = slot(I, a[0])
        k, v = s.f[0].keys.pop(s.f[2]), s.f[0].vals.pop(s.f[2])
        return v if last(ref) == 'remove' else Tup([k, v])
for _k in [k for k in M if norm(k) in N and norm(k).split('::')[-2] == 'Entry']:
    del M[_k]

# ---------------------------------------------------------------- itertools
XI = 'itertools::Itertools::'


@nmodel(XI + 'format', XI + 'format_with')
def _(I, a, ref, rt):
    if last(ref) == 'format_with':
        raise Undecided('format_with')
    sep = sv(I, a[1])
    out = []
    for i, x in enumerate(it_of(I, a[0]).drain(I)):
        if i:
            out.append(sep)
        out.append(display(I, x))
    return cat(*out)


@nmodel(XI + 'interleave')
def _(I, a, ref, rt):
    x, y = it_of(I, a[0]).drain(I), it_of(I, a[1]).drain(I)
    out = []
    for i in range(max(len(x), len(y))):
        out += x[i:i + 1] + y[i:i + 1]
    return ListIt(out)


@nmodel(XI + 'intersperse', XI + 'intersperse_with')
def _(I, a, ref, rt):
    out = []
    for i, x in enumerate(it_of(I, a[0]).drain(I)):
        if i:
            out.append(I.call_value(a[1], []) if 'with' in ref['name'] else clone(I, a[1]))
        out.append(x)
    return ListIt(out)


def tuple_len(I, ref):
    for x in ref['args']:
        t = tinfo(I, x)
        if t['k'] == 'tuple' and t.get('a'):
            return len(t['a'])
    raise Undecided('tuple width')


@nmodel(XI + 'tuple_windows', XI + 'circular_tuple_windows')
def _(I, a, ref, rt):
    xs, n = it_of(I, a[0]).drain(I), tuple_len(I, ref)
    if 'circular' in ref['name']:
        xs = xs + xs[:n - 1] if len(xs) >= n else []
    return ListIt([Tup(list(xs[i:i + n])) for i in range(len(xs) - n + 1)])


@nmodel(XI + 'tuples')
def _(I, a, ref, rt):
    xs, n = it_of(I, a[0]).drain(I), tuple_len(I, ref)
    return ListIt([Tup(list(xs[i:i + n])) for i in range(0, len(xs) - n + 1, n)])


@nmodel(XI + 'collect_tuple', XI + 'next_tuple')
def _(I, a, ref, rt):
    t = rttype(I, rt)
    n = len(I.T[t['a'][0]]['a'])
    it = it_of(I, a[0])
    xs = []
    while len(xs) < n + (last(ref) == 'collect_tuple'):
        x = it.next(I)
        if x is END:
            break
        xs.append(x)
    return some(Tup(xs)) if len(xs) == n else none()


@nmodel(XI + 'cartesian_product')
def _(I, a, ref, rt):
    x, y = it_of(I, a[0]).drain(I), it_of(I, a[1]).drain(I)
    return ListIt([Tup([p, q]) for p in x for q in y])


@nmodel(XI + 'tuple_combinations')
def _(I, a, ref, rt):
    import itertools
    xs, n = it_of(I, a[0]).drain(I), tuple_len(I, ref)
    return ListIt([Tup(list(c)) for c in itertools.combinations(xs, n)])


@nmodel(XI + 'combinations', XI + 'permutations')
def _(I, a, ref, rt):
    import itertools
    xs = it_of(I, a[0]).drain(I)
    return ListIt([Lst(list(c)) for c in getattr(itertools, last(ref))(xs, num(a[1]))])


@nmodel(XI + 'powerset')
def _(I, a, ref, rt):
    import itertools
    xs = it_of(I, a[0]).drain(I)
    return ListIt([Lst(list(c)) for k in range(len(xs) + 1) for c in itertools.combinations(xs, k)])


@nmodel(XI + 'all_equal')
def _(I, a, ref, rt):
    xs = it_of(I, a[0]).drain(I)
    return and_terms([eq_term(I, xs[0], x) for x in xs[1:]])


@nmodel(XI + 'all_unique')
def _(I, a, ref, rt):
    xs = it_of(I, a[0]).drain(I)
    return negate(or_terms([eq_term(I, x, y) for i, x in enumerate(xs) for y in xs[:i]]))


@nmodel(XI + 'contains')
def _(I, a, ref, rt):
    it = it_of(I, a[0])
    while True:
        x = it.next(I)
        if x is END:
            return False
        if I.path.decide(eq_term(I, x, a[1])):
            return True


@nmodel(XI + 'counts', XI + 'counts_by')
def _(I, a, ref, rt):
    h = HMap(False, hasher_of(I, rttype(I, rt)))
    for x in it_of(I, a[0]).drain(I):
        k = I.call_value(a[1], [x]) if last(ref) == 'counts_by' else x
        i = hmap_find(I, h, k)
        if i is None:
            h.keys.append(k)
            h.vals.append(1)
        else:
            h.vals[i] += 1
    return h


@nmodel(XI + 'into_group_map', XI + 'into_group_map_by')
def _(I, a, ref, rt):
    h = HMap(False, hasher_of(I, rttype(I, rt)))
    for x in it_of(I, a[0]).drain(I):
        k, v = (I.call_value(a[1], [Ref([x])]), x) if last(ref).endswith('by') else (x.f[0], x.f[1])
        i = hmap_find(I, h, k)
        if i is None:
            h.keys.append(k)
            h.vals.append(Lst([v]))
        else:
            h.vals[i].items.append(v)
    return h


@nmodel(XI + 'partition_map')
def _(I, a, ref, rt):
    l, r = [], []
    for x in it_of(I, a[0]).drain(I):
        e = I.deref(I.call_value(a[1], [x]))
        (l if e.v == 0 else r).append(e.f[0])
    t = rttype(I, rt)
    return Tup([collect_into(I, I.T[t['a'][i]], v) for i, v in enumerate((l, r))])


@nmodel(XI + 'partition_result')
def _(I, a, ref, rt):
    l, r = [], []
    for x in it_of(I, a[0]).drain(I):
        e = var(I, x)
        (l if good(e) else r).append(e.f[0])
    t = rttype(I, rt)
    return Tup([collect_into(I, I.T[t['a'][i]], v) for i, v in enumerate((l, r))])


@nmodel(*[XI + 'position_%s%s' % (m, k) for m in ('max', 'min') for k in ('', '_by_key', '_by')])
def _(I, a, ref, rt):
    xs = list(enumerate(it_of(I, a[0]).drain(I)))
    k = last(ref)
    if not xs:
        return none()
    if k.endswith('_by'):
        c = lambda p, q: I.call_value(a[1], [Ref([p[1]]), Ref([q[1]])]).v - 1
    else:
        if k.endswith('_by_key'):
            xs = [(i, I.call_value(a[1], [Ref([x])])) for i, x in xs]
        c = lambda p, q: cmp_values(I, p[1], q[1])
    return some(extreme(I, xs, c, 'max' in k)[0])


@nmodel(XI + 'exactly_one', XI + 'at_most_one')
def _(I, a, ref, rt):
    xs = it_of(I, a[0]).drain(I)
    if last(ref) == 'exactly_one':
        return ok(xs[0]) if len(xs) == 1 else err(ListIt(xs))
    return ok(some(xs[0]) if xs else none()) if len(xs) < 2 else err(ListIt(xs))


@nmodel(XI + 'fold_while')
def _(I, a, ref, rt):
    it, acc = it_of(I, a[0]), a[1]
    while True:
        x = it.next(I)
        if x is END:
            return Adt('itertools::FoldWhile', 0, [acc])
        r = I.deref(I.call_value(a[2], [acc, x]))
        acc = r.f[0]
        if r.v == 1:
            return r


@nmodel('itertools::FoldWhile::into_inner')
def _(I, a, ref, rt):
    return a[0].f[0]


@nmodel('itertools::FoldWhile::is_done')
def _(I, a, ref, rt):
    return I.deref(a[0]).v == 1


@nmodel(XI + 'fold_ok', XI + 'fold_options')
def _(I, a, ref, rt):
    it, acc = it_of(I, a[0]), a[1]
    while True:
        x = it.next(I)
        if x is END:
            return some(acc) if last(ref) == 'fold_options' else ok(acc)
        r = var(I, x)
        if not good(r):
            return r
        acc = I.call_value(a[2], [acc, r.f[0]])


@nmodel(XI + 'duplicates', XI + 'duplicates_by')
def _(I, a, ref, rt):
    ks, out = [], []
    for x in it_of(I, a[0]).drain(I):
        k = I.call_value(a[1], [Ref([x])]) if last(ref) == 'duplicates_by' else x
        for e in ks:
            if I.path.decide(eq_term(I, e[0], k)):
                if not e[1]:
                    out.append(x)
                e[1] = True
                break
        else:
            ks.append([k, False])
    return ListIt(out)


@nmodel(XI + 'minmax')
def _(I, a, ref, rt):
    xs = it_of(I, a[0]).drain(I)
    p = 'itertools::minmax::MinMaxResult'
    if len(xs) < 2:
        return Adt(p, len(xs), xs)
    c = lambda p, q: cmp_values(I, p, q)
    return Adt(p, 2, [extreme(I, xs, c, False), extreme(I, xs, c, True)])


@nmodel('itertools::minmax::MinMaxResult::into_option')
def _(I, a, ref, rt):
    return none() if a[0].v == 0 else some(Tup([a[0].f[0], a[0].f[-1]]))


def lazily(it, f):
    def step(I):
        while True:
            x = it.next(I)
            if x is END:
                return END
            r = f(I, x)
            if r is not None:
                return r
    return FnIt(step)


@nmodel(XI + 'map_ok', XI + 'filter_ok', XI + 'filter_map_ok')
def _(I, a, ref, rt):
    k = last(ref)

    def f(I, x):
        x = var(I, x)
        if not good(x):
            return x
        if k == 'map_ok':
            return ok(I.call_value(a[1], [x.f[0]]))
        if k == 'filter_ok':
            return x if I.path.decide(I.call_value(a[1], [Ref(x.f, 0)])) else None
        r = var(I, I.call_value(a[1], [x.f[0]]))
        return ok(r.f[0]) if good(r) else None
    return lazily(it_of(I, a[0]), f)


@nmodel(XI + 'map_into')
def _(I, a, ref, rt):
    raise Undecided('map_into')


@nmodel(XI + 'flatten_ok')
def _(I, a, ref, rt):
    out = []
    for x in it_of(I, a[0]).drain(I):
        x = var(I, x)
        out += [ok(y) for y in it_of(I, x.f[0]).drain(I)] if good(x) else [x]
    return ListIt(out)


@nmodel(XI + 'zip_longest', 'itertools::zip_longest')
def _(I, a, ref, rt):
    x, y = it_of(I, a[0]).drain(I), it_of(I, a[1]).drain(I)
    p = 'itertools::either_or_both::EitherOrBoth'
    return ListIt([Adt(p, 0, [x[i], y[i]]) if i < len(x) and i < len(y) else Adt(p, 1, [x[i]]) if i < len(x) else Adt(p, 2, [y[i]])
                   for i in range(max(len(x), len(y)))])


@nmodel(XI + 'zip_eq', 'itertools::zip_eq_impl::zip_eq', 'itertools::zip_eq')
def _(I, a, ref, rt):
    x, y = it_of(I, a[0]).drain(I), it_of(I, a[1]).drain(I)
    if len(x) != len(y):
        I.panic('index', 'itertools: .zip_eq() reached end of one iterator before the other')
    return ListIt([Tup([p, q]) for p, q in zip(x, y)])


@nmodel(XI + 'with_position')
def _(I, a, ref, rt):
    xs = it_of(I, a[0]).drain(I)
    p = 'itertools::with_position::Position'
    return ListIt([Tup([Adt(p, 3 if len(xs) == 1 else 0 if i == 0 else 2 if i == len(xs) - 1 else 1, []), x]) for i, x in enumerate(xs)])


@nmodel('itertools::free::chain')
def _(I, a, ref, rt):
    return M[IT + 'chain'](I, a, ref, rt)


@nmodel('itertools::repeatn::repeat_n', 'core::iter::sources::repeat_n::repeat_n')
def _(I, a, ref, rt):
    return ListIt([clone(I, a[0]) for _ in range(num(a[1]))])


@nmodel(XI + 'rev')
def _(I, a, ref, rt):
    return M[IT + 'rev'](I, a, ref, rt)


@nmodel(XI + 'dropping', XI + 'dropping_back')
def _(I, a, ref, rt):
    it = it_of(I, a[0])
    for _ in range(num(a[1])):
        if (it.next(I) if last(ref) == 'dropping' else it.next_back(I)) is END:
            break
    return it


@nmodel(XI + 'concat')
def _(I, a, ref, rt):
    xs = it_of(I, a[0]).drain(I)
    if all(isinstance(x, Lst) for x in xs) and xs:
        return Lst([y for x in xs for y in x.items])
    raise Undecided('concat')


@nmodel(XI + 'k_smallest', XI + 'coalesce', XI + 'batching', XI + 'chunk_by', XI + 'group_by', XI + 'chunks', XI + 'kmerge', XI + 'merge', XI + 'multi_cartesian_product',
        XI + 'peeking_take_while', XI + 'take_while_ref', XI + 'take_while_inclusive', XI + 'tee', XI + 'into_grouping_map', XI + 'set_from', XI + 'assert_equal')
def _(I, a, ref, rt):
    raise Undecided('no contract for ' + ref['name'])


# ---------------------------------------------------------------- numbers
for _t, (_lo, _hi) in RANGES.items():
    _p = 'core::num::<impl %s>::' % _t

    def _mk(lo, hi, t):
        def wrap(v):
            return (v - lo) % (hi - lo) + lo

        def bi(op):
            def f(I, a, ref, rt):
                x, y = I.deref(a[0]), I.deref(a[1])
                k = last(ref)
                if isinstance(x, int) and isinstance(y, int):
                    if op in ('div', 'rem', 'div_euclid', 'rem_euclid') and y == 0:
                        if k.startswith('checked'):
                            return none()
                        I.panic('arith', 'division by zero')
                    v = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'pow': lambda: x ** y,
                         'div': lambda: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1), 'rem': lambda: (abs(x) % abs(y)) * (-1 if x < 0 else 1),
                         'div_euclid': lambda: (x - x % abs(y)) // y, 'rem_euclid': lambda: x % abs(y)}[op]()
                    o = not lo <= v < hi
                    if k.startswith('checked'):
                        return none() if o else some(v)
                    if k.startswith('saturating'):
                        return (lo if v < lo else hi - 1) if o else v
                    if k.startswith('overflowing'):
                        return Tup([wrap(v), o])
                    if k.startswith('wrapping'):
                        return wrap(v)
                    if o:
                        I.panic('arith', 'attempt to %s with overflow' % op)
                    return v
                old = M.get(ref['name']) if op in ('add', 'sub', 'mul') else None
                if old is None or getattr(old, 'exact', False):
                    raise Undecided('%s of an unknown number' % k)
                return old(I, a, ref, rt)
            return f
        return bi
    _bi = _mk(_lo, _hi, _t)
    for _op in ('add', 'sub', 'mul', 'div', 'rem', 'pow', 'div_euclid', 'rem_euclid'):
        for _pre in ('checked_', 'saturating_', 'wrapping_', 'overflowing_', ''):
            _n = _p + _pre + _op
            _f = _bi(_op)
            _old = M.get(_n)
            if _old is not None:
                def _g(I, a, ref, rt, f=_f, old=_old):
                    if all(isinstance(I.deref(x), int) for x in a[:2]):
                        return f(I, a, ref, rt)
                    return old(I, a, ref, rt)
                M[_n] = _g
            else:
                N[_n] = _f

    def _un(f, lo=_lo, hi=_hi):
        def g(I, a, ref, rt):
            v = f(num(I.deref(a[0])))
            if not lo <= v < hi:
                I.panic('arith', 'overflow')
            return v
        return g
    _bits = (_hi - _lo).bit_length() - 1
    N[_p + 'abs'] = _un(abs)
    N[_p + 'signum'] = _un(lambda x: (x > 0) - (x < 0))
    N[_p + 'unsigned_abs'] = lambda I, a, ref, rt: abs(num(I.deref(a[0])))
    N[_p + 'leading_zeros'] = lambda I, a, ref, rt, b=_bits, m=_hi - _lo: b - (num(a[0]) % m).bit_length()
    N[_p + 'trailing_zeros'] = lambda I, a, ref, rt, b=_bits: b if num(a[0]) == 0 else (a[0] & -a[0]).bit_length() - 1
    N[_p + 'count_ones'] = lambda I, a, ref, rt, m=_hi - _lo: bin(num(a[0]) % m).count('1')
    N[_p + 'is_power_of_two'] = lambda I, a, ref, rt: num(a[0]) > 0 and a[0] & (a[0] - 1) == 0
    N[_p + 'div_ceil'] = lambda I, a, ref, rt: -(-num(a[0]) // num(a[1]))
    N[_p + 'next_multiple_of'] = lambda I, a, ref, rt: -(-num(a[0]) // num(a[1])) * a[1]
    N[_p + 'isqrt'] = lambda I, a, ref, rt: int(__import__('math').isqrt(num(a[0])))


@nmodel('core::cmp::Ord::clamp')
def _(I, a, ref, rt):
    if cmp_values(I, a[1], a[2]) > 0:
        I.panic('arith', 'clamp: min > max')
    return a[1] if cmp_values(I, a[0], a[1]) < 0 else a[2] if cmp_values(I, a[0], a[2]) > 0 else a[0]


@nmodel(*['core::cmp::' + k for k in ('max_by_key', 'min_by_key')])
def _(I, a, ref, rt):
    c = cmp_values(I, I.call_value(a[2], [Ref([a[0]])]), I.call_value(a[2], [Ref([a[1]])]))
    return (a[1] if c <= 0 else a[0]) if 'max' in ref['name'] else (a[0] if c <= 0 else a[1])


@nmodel(*['core::cmp::Ordering::' + k for k in ('is_lt', 'is_le', 'is_gt', 'is_ge', 'is_eq', 'is_ne')])
def _(I, a, ref, rt):
    c = I.deref(a[0]).v - 1
    return {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0, 'eq': c == 0, 'ne': c != 0}[last(ref)[3:]]


@nmodel(*['core::ops::arith::%s::%s' % (t, t.lower()) for t in ('Mul', 'Div', 'Rem')], *['core::ops::arith::%sAssign::%s_assign' % (t, t.lower()) for t in ('Mul', 'Div', 'Rem')],
        'core::ops::arith::Neg::neg')
def _(I, a, ref, rt):
    x = num(I.deref(a[0]))
    k = last(ref)
    if k == 'neg':
        return -x
    y = num(I.deref(a[1]))
    if k[:3] in ('div', 'rem') and y == 0:
        I.panic('arith', 'division by zero')
    v = {'mul': lambda: x * y, 'div': lambda: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1), 'rem': lambda: (abs(x) % abs(y)) * (-1 if x < 0 else 1)}[k[:3]]()
    if k.endswith('assign'):
        a[0].set(v)
        return UNIT
    return v


# ---------------------------------------------------------------- cells
@nmodel('core::cell::RefCell::new', 'core::cell::Cell::new', 'core::cell::OnceCell::new', 'std::sync::poison::mutex::Mutex::new')
def _(I, a, ref, rt):
    return Adt('cell', 0, [a[0]] if a else [none()])


@nmodel('core::cell::RefCell::borrow', 'core::cell::RefCell::borrow_mut', 'core::cell::RefCell::get_mut', 'core::cell::Cell::get_mut')
def _(I, a, ref, rt):
    return Ref(I.deref(a[0]).f, 0)


@nmodel('core::cell::RefCell::into_inner', 'core::cell::Cell::into_inner')
def _(I, a, ref, rt):
    return a[0].f[0]


@nmodel('core::cell::Cell::get')
def _(I, a, ref, rt):
    return clone(I, I.deref(a[0]).f[0])


@nmodel('core::cell::Cell::set', 'core::cell::Cell::replace', 'core::cell::RefCell::replace')
def _(I, a, ref, rt):
    c = I.deref(a[0])
    old, c.f[0] = c.f[0], a[1]
    return UNIT if last(ref) == 'set' else old


@nmodel('core::cell::Cell::take', 'core::cell::RefCell::take')
def _(I, a, ref, rt):
    c = I.deref(a[0])
    old, c.f[0] = c.f[0], default_of(I, rttype(I, rt))
    return old


# ---------------------------------------------------------------- paths
@nmodel('std::path::Path::file_name', 'std::path::Path::file_stem', 'std::path::Path::extension')
def _(I, a, ref, rt):
    s = conc(I, a[0], last(ref))
    n = s.rstrip('/').split('/')[-1]
    if n in ('', '.', '..'):
        return none()
    k = last(ref)
    if k == 'file_name':
        return some(n)
    i = n.rfind('.')
    if i <= 0:
        return some(n) if k == 'file_stem' else none()
    return some(n[:i] if k == 'file_stem' else n[i + 1:])


@nmodel('std::path::Path::to_str', 'std::ffi::os_str::OsStr::to_str')
def _(I, a, ref, rt):
    return some(sv(I, a[0]))


FALLBACK.update(N)
