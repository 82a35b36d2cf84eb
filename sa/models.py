"""Contracts of the functions outside the analysed crate (std, itertools, pyo3, quote, syn)."""
import functools, re
from core import *
from interp import *

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


END = object()


# ---------------------------------------------------------------- types
def tinfo(I, a):
    return I.T[a] if isinstance(a, int) else {'k': 'const', 's': str(a)}


def tstr(I, a):
    return tinfo(I, a)['s']


def rttype(I, rt):
    return I.T[rt[1]] if rt else {'k': '?', 's': '?'}


def short(s):
    return s.split('<')[0].split('::')[-1]


# ---------------------------------------------------------------- strings
def sv(I, v):
    """the string a value denotes: &str, String, Cow, PathBuf, references to them"""
    v = I.deref(v)
    if isinstance(v, (str, Sym)):
        return v
    if isinstance(v, Adt):
        if v.p in ('syn::Ident', 'RepInterp') or v.p.endswith('Cow') or v.p.endswith('Interned'):
            return sv(I, v.f[0])
        if v.p.startswith('core::fmt::Arguments'):
            return v.f[0]
        if len(v.f) == 1:
            return sv(I, v.f[0])
    if isinstance(v, Slice) and all(isinstance(x, int) for x in v.list()):
        return bytes(v.list()).decode('utf8', 'replace')
    raise Undecided('string expected, got %r' % (v,))


def str_atom(I, op, s, l):
    k = I.path.known_str(op, s, l) if isinstance(l, str) else None
    if k is not None:
        return k
    return S(op, s, l)


def pattern(I, p):
    """-> str | ('set', [chars]) | ('pred', closure)"""
    d = I.deref(p)
    if isinstance(d, int) and not isinstance(d, bool):
        return chr(d)
    if isinstance(d, (str, Sym)):
        return d
    if isinstance(d, (Slice, Lst)):
        return ('set', [chr(x) for x in (d.list() if isinstance(d, Slice) else d.items)])
    if isinstance(d, (Clo, Fn, PyFn)):
        return ('pred', d)
    if isinstance(d, Adt) and len(d.f) == 1:
        return pattern(I, d.f[0])
    raise Undecided('pattern %r' % (d,))


def char_matches(I, p, ch):
    if isinstance(p, str):
        return ch == p
    if p[0] == 'set':
        return ch in p[1]
    return I.path.decide(I.call_value(p[1], [ord(ch)]))


def pkey(p):
    if isinstance(p, (str, Sym)):
        return p
    if p[0] == 'set':
        return tuple(p[1])
    return p[1].key if isinstance(p[1], Clo) else 'pred'


@model('core::str::<impl str>::starts_with')
def _(I, a, ref, rt):
    s, p = sv(I, a[0]), pattern(I, a[1])
    if isinstance(p, tuple):
        if isinstance(s, str):
            return bool(s) and bool(char_matches(I, p, s[0]))
        if p[0] == 'set':
            return or_terms([str_atom(I, 'prefix', s, c) for c in p[1]])
        return first_char_pred(I, s, p)
    return str_atom(I, 'prefix', s, p)


def first_char_pred(I, s, p):
    """closure on the first character of an unknown string"""
    if I.path.decide(mk_eq(s, '')):
        return False
    r = I.call_value(p[1], [S('char0', s)])
    return r


@model('core::str::<impl str>::ends_with')
def _(I, a, ref, rt):
    s, p = sv(I, a[0]), pattern(I, a[1])
    if isinstance(p, tuple):
        if isinstance(s, str):
            return bool(s) and bool(char_matches(I, p, s[-1]))
        return S('suffixpred', s, pkey(p))
    return str_atom(I, 'suffix', s, p)


@model('core::str::<impl str>::contains')
def _(I, a, ref, rt):
    s, p = sv(I, a[0]), pattern(I, a[1])
    if isinstance(p, tuple):
        if isinstance(s, str):
            return any(char_matches(I, p, c) for c in s)
        return S('containspred', s, pkey(p))
    return str_atom(I, 'contains', s, p)


def or_terms(ts):
    r = False
    for t in ts:
        if t is True or r is True:
            return True
        if t is False:
            continue
        r = t if r is False else S('or', r, t)
    return r


def and_terms(ts):
    r = True
    for t in ts:
        if t is False or r is False:
            return False
        if t is True:
            continue
        r = t if r is True else S('and', r, t)
    return r


@model('core::str::<impl str>::is_empty', 'alloc::string::String::is_empty', 'std::path::Path::is_empty')
def _(I, a, ref, rt):
    s = sv(I, a[0])
    k = I.path.known_eq(s, '')
    return k if k is not None else mk_eq(s, '')


@model('core::str::<impl str>::len', 'alloc::string::String::len')
def _(I, a, ref, rt):
    s = sv(I, a[0])
    return len(s.encode()) if isinstance(s, str) else S('slen', s)


def ident_fn(I, a, ref, rt):
    return a[0]


def str_ident(I, a, ref, rt):
    return sv(I, a[0])


for n in ('alloc::string::String::as_str', 'alloc::string::String::as_mut_str', 'alloc::string::String::into_boxed_str',
          'alloc::str::<impl str>::into_string', 'alloc::borrow::Cow::<\'_, B>::into_owned', 'std::path::Path::new',
          'std::path::Path::to_string_lossy', 'std::path::Path::display', 'std::path::Path::to_path_buf', 'std::path::PathBuf::as_path',
          'pyo3::types::string::PyStringMethods::to_cow', 'alloc::string::String::from_utf8_lossy', 'alloc::str::<impl str>::to_owned',
          'core::str::<impl str>::to_owned', 'pyo3::types::string::PyStringMethods::to_string_lossy', 'alloc::string::String::leak'):
    M[n] = str_ident


@model('core::str::<impl str>::as_bytes', 'alloc::string::String::as_bytes', 'alloc::string::String::into_bytes')
def _(I, a, ref, rt):
    s = sv(I, a[0])
    if isinstance(s, str):
        return Slice(list(s.encode()))
    return S('bytes', s)


@model('std::path::PathBuf::join', 'std::path::Path::join')
def _(I, a, ref, rt):
    return S('pathjoin', sv(I, a[0]), sv(I, a[1]))


@model('std::path::Path::parent')
def _(I, a, ref, rt):
    s = sv(I, a[0])
    return some(S('pathparent', s)) if I.path.decide(S('has_parent', s)) else none()


@model('core::str::<impl str>::strip_prefix')
def _(I, a, ref, rt):
    s, p = sv(I, a[0]), pattern(I, a[1])
    if isinstance(s, str) and isinstance(p, str):
        return some(s[len(p):]) if s.startswith(p) else none()
    if isinstance(p, tuple):
        raise Undecided('strip_prefix by predicate')
    if isinstance(s, Sym) and p == 'r#' and s.op == 'rs':
        raise Undecided('raw prefix of an escaped name outside the identifier contract')
    ok_, pa, pb = strip_common(list(parts(s)), list(parts(p)))
    if ok_ and not pb:
        return some(cat(*pa))
    if I.path.decide(str_atom(I, 'prefix', s, p)):
        ps = parts(s)
        if isinstance(ps[0], str) and isinstance(p, str) and ps[0].startswith(p):
            return some(cat(ps[0][len(p):], *ps[1:]))
        r = S('sp', s, p)
        carry(I, s, r, 'suffix', p)
        return some(r)
    return none()


def carry(I, s, r, op, p):
    """facts about the other end of s that survive on the stripped remainder r"""
    for atom, v in list(I.path.bysym.get(s, ())):
        if atom.op == op and v and isinstance(atom.args[1], str) and isinstance(p, str):
            l = atom.args[1]
            # can the two matched ends overlap inside s?
            if op == 'suffix':
                ov = any(p[-k:] == l[:k] for k in range(1, min(len(p), len(l)) + 1)) or l in p
            else:
                ov = any(p[:k] == l[-k:] for k in range(1, min(len(p), len(l)) + 1)) or l in p
            if not ov:
                if I.path.known(S(op, r, l)) is None:
                    I.path.record(S(op, r, l), True)
        elif atom.op == 'contains' and not v:
            if I.path.known(S('contains', r, atom.args[1])) is None:
                I.path.record(S('contains', r, atom.args[1]), False)


@model('core::str::<impl str>::strip_suffix')
def _(I, a, ref, rt):
    s, p = sv(I, a[0]), pattern(I, a[1])
    if isinstance(s, str) and isinstance(p, str):
        return some(s[:len(s) - len(p)]) if s.endswith(p) else none()
    if isinstance(p, tuple):
        raise Undecided('strip_suffix by predicate')
    if I.path.decide(str_atom(I, 'suffix', s, p)):
        ps = parts(s)
        if isinstance(ps[-1], str) and isinstance(p, str) and ps[-1].endswith(p):
            return some(cat(*ps[:-1], ps[-1][:len(ps[-1]) - len(p)]))
        r = S('ss', s, p)
        carry(I, s, r, 'prefix', p)
        return some(r)
    return none()


def pieces(I, s, p, label='piece', maxn=None):
    """split an unknown string: partition over the number of pieces"""
    has = I.path.known_str('contains', s, p) if isinstance(p, str) else None
    key = ('pieces', s, pkey(p), label)
    if key in I.path.memo:
        return I.path.memo[key]
    ns = tuple(I.policy.pieces(I.path, s, p)) if hasattr(I.policy, 'pieces') else (1, 2)
    if has is False:
        ns = (1,)
    elif has is True:
        ns = tuple(n for n in ns if n > 1) or (2,)
    n = I.path.split(ns, 'pieces of %r at %r' % (s, p))
    if isinstance(p, str):
        if has is None:
            I.path.assume(S('contains', s, p), n > 1)
    if n == 1:
        r = [s]
    else:
        r = [S(label, s, pkey(p), i, n) for i in range(n)]
        if isinstance(p, str):
            for x in r:
                I.path.record(S('contains', x, p), False)
    I.path.memo[key] = r
    return r


@model('core::str::<impl str>::split')
def _(I, a, ref, rt):
    s, p = sv(I, a[0]), pattern(I, a[1])
    if isinstance(s, str):
        if isinstance(p, str):
            return ListIt(s.split(p) if p else list(s))
        out, cur = [], ''
        for ch in s:
            if char_matches(I, p, ch):
                out.append(cur)
                cur = ''
            else:
                cur += ch
        return ListIt(out + [cur])
    return ListIt(list(pieces(I, s, p)))


@model('core::str::<impl str>::rsplit')
def _(I, a, ref, rt):
    it = M['core::str::<impl str>::split'](I, a, ref, rt)
    return ListIt(it.drain(I)[::-1])


@model('core::str::<impl str>::splitn')
def _(I, a, ref, rt):
    s, n, p = sv(I, a[0]), a[1], pattern(I, a[2])
    if isinstance(s, str) and isinstance(p, str):
        return ListIt(s.split(p, n - 1))
    if n == 2:
        if I.path.decide(str_atom(I, 'contains', s, p)):
            return ListIt([S('before', s, pkey(p)), S('after', s, pkey(p))])
        return ListIt([s])
    raise Undecided('splitn')


@model('core::str::<impl str>::split_once', 'core::str::<impl str>::rsplit_once')
def _(I, a, ref, rt):
    s, p = sv(I, a[0]), pattern(I, a[1])
    r = 'rsplit' in ref['name']
    if isinstance(s, str) and isinstance(p, str):
        if p not in s:
            return none()
        x = s.rsplit(p, 1) if r else s.split(p, 1)
        return some(Tup(list(x)))
    if I.path.decide(str_atom(I, 'contains', s, p) if isinstance(p, (str, Sym)) else S('containspred', s, pkey(p))):
        b, f = S('rbefore' if r else 'before', s, pkey(p)), S('rafter' if r else 'after', s, pkey(p))
        return some(Tup([b, f]))
    return none()


class MatchIt:
    pass


@model('core::str::<impl str>::matches')
def _(I, a, ref, rt):
    s, p = sv(I, a[0]), pattern(I, a[1])
    if isinstance(s, str):
        if isinstance(p, str):
            return ListIt([p] * s.count(p))
        return ListIt([c for c in s if char_matches(I, p, c)])
    return SymCountIt(S('count', s, pkey(p)), s, p)


@model('core::str::<impl str>::trim', 'core::str::<impl str>::trim_end', 'core::str::<impl str>::trim_start')
def _(I, a, ref, rt):
    s = sv(I, a[0])
    k = ref['name'].split('::')[-1]
    if isinstance(s, str):
        return {'trim': s.strip(), 'trim_end': s.rstrip(), 'trim_start': s.lstrip()}[k]
    if s.op in ('trim', 'pyseg', 'rs', 'tname'):
        return s
    if getattr(I.policy, 'trimmed', None) and I.policy.trimmed(I.path, s):
        return s
    r = S(k, s)
    for atom, v in list(I.path.bysym.get(s, ())):
        if atom.op == 'contains' and not v and I.path.known(S('contains', r, atom.args[1])) is None:
            I.path.record(S('contains', r, atom.args[1]), False)
    return r


@model('core::str::<impl str>::trim_matches', 'core::str::<impl str>::trim_start_matches', 'core::str::<impl str>::trim_end_matches')
def _(I, a, ref, rt):
    s, p = sv(I, a[0]), pattern(I, a[1])
    k = ref['name'].split('::')[-1]
    if isinstance(s, str) and isinstance(p, str):
        if k != 'trim_end_matches':
            while p and s.startswith(p):
                s = s[len(p):]
        if k != 'trim_start_matches':
            while p and s.endswith(p):
                s = s[:-len(p)]
        return s
    if isinstance(p, str) and k == 'trim_start_matches' and not I.path.decide(str_atom(I, 'prefix', s, p)):
        return s
    return S(k, s, pkey(p))


@model('alloc::str::<impl str>::to_lowercase', 'alloc::str::<impl str>::to_uppercase', 'core::str::<impl str>::to_ascii_lowercase',
       'alloc::str::<impl str>::to_ascii_lowercase')
def _(I, a, ref, rt):
    s = sv(I, a[0])
    k = 'lower' if 'lower' in ref['name'] else 'upper'
    return getattr(s, k)() if isinstance(s, str) else S(k, s)


@model('alloc::str::<impl str>::replace')
def _(I, a, ref, rt):
    s, p, t = sv(I, a[0]), pattern(I, a[1]), sv(I, a[2])
    if isinstance(s, str):
        if isinstance(p, str):
            return s.replace(p, t)
        return ''.join(t if char_matches(I, p, c) else c for c in s)
    if isinstance(p, str) and I.path.known_str('contains', s, p) is False:
        return s
    return S('replace', s, pkey(p), t)


@model('alloc::str::<impl str>::repeat')
def _(I, a, ref, rt):
    s, n = sv(I, a[0]), a[1]
    return s * n if isinstance(s, str) and isinstance(n, int) else S('repeat', s, n)


@model('core::str::<impl str>::chars', 'core::str::<impl str>::char_indices', 'core::str::<impl str>::bytes')
def _(I, a, ref, rt):
    s = sv(I, a[0])
    if isinstance(s, str):
        if ref['name'].endswith('bytes'):
            return ListIt(list(s.encode()))
        cs = [ord(c) for c in s]
        return ListIt(cs if ref['name'].endswith('chars') else [Tup([i, c]) for i, c in enumerate(cs)])
    return SymCharsIt(s, ref['name'].endswith('char_indices'))


@model('core::str::<impl str>::lines')
def _(I, a, ref, rt):
    s = sv(I, a[0])
    if isinstance(s, str):
        x = s.split('\n')
        if x and x[-1] == '':
            x.pop()
        return ListIt([y[:-1] if y.endswith('\r') else y for y in x])
    return ListIt(list(pieces(I, s, '\n', 'line')))


@model('core::str::<impl str>::find', 'core::str::<impl str>::rfind')
def _(I, a, ref, rt):
    s, p = sv(I, a[0]), pattern(I, a[1])
    r = ref['name'].endswith('rfind')
    if isinstance(s, str) and isinstance(p, str):
        i = s.rfind(p) if r else s.find(p)
        return none() if i < 0 else some(len(s[:i].encode()))
    if I.path.decide(str_atom(I, 'contains', s, p) if isinstance(p, (str, Sym)) else S('containspred', s, pkey(p))):
        return some(S('find', s, pkey(p), r))
    return none()


@model('core::str::<impl str>::split_whitespace')
def _(I, a, ref, rt):
    s = sv(I, a[0])
    if isinstance(s, str):
        return ListIt(s.split())
    raise Undecided('split_whitespace')


@model('core::str::<impl str>::eq_ignore_ascii_case')
def _(I, a, ref, rt):
    s, t = sv(I, a[0]), sv(I, a[1])
    return s.lower() == t.lower() if isinstance(s, str) and isinstance(t, str) else mk_eq(S('lower', s), t.lower() if isinstance(t, str) else S('lower', t))


def smut(I, r, f):
    """mutate the String behind &mut String"""
    while isinstance(r.get(), Ref):
        r = r.get()
    r.set(f(r.get()))
    return UNIT


@model('alloc::string::String::push')
def _(I, a, ref, rt):
    return smut(I, a[0], lambda s: cat(s, chr(a[1]) if isinstance(a[1], int) else S('charstr', a[1])))


@model('alloc::string::String::push_str')
def _(I, a, ref, rt):
    return smut(I, a[0], lambda s: cat(s, sv(I, a[1])))


@model('alloc::string::String::clear')
def _(I, a, ref, rt):
    return smut(I, a[0], lambda s: '')


@model('alloc::string::String::insert', 'alloc::string::String::insert_str')
def _(I, a, ref, rt):
    t = chr(a[2]) if isinstance(a[2], int) else sv(I, a[2])

    def f(s):
        if a[1] == 0:
            return cat(t, s)
        if isinstance(s, str) and isinstance(a[1], int):
            return cat(s[:a[1]], t, s[a[1]:])
        return S('inserted', s, t)
    return smut(I, a[0], f)


@model('alloc::string::String::pop')
def _(I, a, ref, rt):
    r = a[0]
    s = sv(I, r)
    if isinstance(s, str):
        if not s:
            return none()
        smut(I, r, lambda x: s[:-1])
        return some(ord(s[-1]))
    if I.path.decide(mk_eq(s, '')):
        return none()
    smut(I, r, lambda x: S('popped', s))
    return some(S('lastchar', s))


@model('alloc::string::String::remove')
def _(I, a, ref, rt):
    s = sv(I, a[0])
    if isinstance(s, str) and isinstance(a[1], int):
        b = s.encode()
        if a[1] >= len(b):
            I.panic('string', 'cannot remove a char from the end of a string', cause=repr((s, a[1])))
        smut(I, a[0], lambda x: s[:a[1]] + s[a[1] + 1:])
        return ord(s[a[1]])
    if a[1] == 0:
        if I.path.decide(mk_eq(s, '')):
            I.panic('string', 'remove from an empty string', cause=repr(s))
        smut(I, a[0], lambda x: S('tail', s))
        return S('char0', s)
    raise Undecided('String::remove')


@model('alloc::string::String::truncate')
def _(I, a, ref, rt):
    s = sv(I, a[0])
    if isinstance(s, str) and isinstance(a[1], int):
        return smut(I, a[0], lambda x: s.encode()[:a[1]].decode())
    return smut(I, a[0], lambda x: S('truncated', s, I.freeze(a[1])))


@model('alloc::string::String::retain')
def _(I, a, ref, rt):
    s = sv(I, a[0])
    if isinstance(s, str):
        out = ''
        for c in s:
            if I.path.decide(I.call_value(a[1], [ord(c)])):
                out += c
        return smut(I, a[0], lambda x: out)
    return smut(I, a[0], lambda x: S('retained', s, a[1].key if isinstance(a[1], Clo) else 'f'))


@model('alloc::string::String::new')
def _(I, a, ref, rt):
    return ''


M['alloc::string::String::with_capacity'] = M['alloc::string::String::new']


@model('core::char::methods::<impl char>::is_alphanumeric', 'core::char::methods::<impl char>::is_alphabetic', 'core::char::methods::<impl char>::is_whitespace',
       'core::char::methods::<impl char>::is_ascii_alphanumeric', 'core::char::methods::<impl char>::is_uppercase', 'core::char::methods::<impl char>::is_lowercase',
       'core::char::methods::<impl char>::is_numeric', 'core::char::methods::<impl char>::is_ascii_digit')
def _(I, a, ref, rt):
    c = I.deref(a[0])
    k = ref['name'].split('::')[-1]
    if isinstance(c, int):
        c = chr(c)
        return {'is_alphanumeric': c.isalnum(), 'is_alphabetic': c.isalpha(), 'is_whitespace': c.isspace(), 'is_ascii_alphanumeric': c.isascii() and c.isalnum(),
                'is_uppercase': c.isupper(), 'is_lowercase': c.islower(), 'is_numeric': c.isnumeric(), 'is_ascii_digit': c in '0123456789'}[k]
    return S(k, c)


# ---------------------------------------------------------------- formatting
def fmt_template(tb):
    i, out, arg = 0, [], 0
    lit = b''
    while i < len(tb):
        b = tb[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            lit += bytes(tb[i:i + b])
            i += b
        elif b == 0x80:
            n = tb[i] | tb[i + 1] << 8
            i += 2
            lit += bytes(tb[i:i + n])
            i += n
        else:
            if lit:
                out.append(lit.decode())
                lit = b''
            fl = None
            if b & 0x3f & ~8:
                fl = [0, None, None, b & 0x30]
            for k, n in ((0, 4), (1, 2), (2, 2)):
                if b >> k & 1:
                    fl[k] = int.from_bytes(bytes(tb[i:i + n]), 'little')
                    i += n
            if b & 8:
                arg = tb[i] | tb[i + 1] << 8
                i += 2
            out.append((arg, fl))
            arg += 1
    if lit:
        out.append(lit.decode())
    return out


def display(I, v, dbg=False):
    v = I.deref(v)
    if isinstance(v, str):
        return v if not dbg else rust_str(v)
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, Sym):
        if dbg:
            return S('debug', v)
        if is_strterm(v):
            return v
        return pystr(v)
    if isinstance(v, Adt):
        if v.p in ('syn::Ident',):
            return v.f[0]
        if v.p.startswith('core::fmt::Arguments'):
            return v.f[0]
        if v.p.endswith('Cow'):
            return display(I, v.f[0])
        tr = 'core::fmt::Debug' if dbg else 'core::fmt::Display'
        for (t, st, it), b in I.P.impls.items():
            if t == tr and it == 'fmt' and st.split('<')[0] == v.p:
                if b['impl']['derived'] in (True, 'true') or dbg:
                    return S('debug', I.freeze(v))
                if v.p.endswith('PyBindgenError'):
                    return S('disp', I.freeze(v))
                F = Adt('Formatter', 0, [''])
                I.call_body(b, [Ref([v]), Ref([F])])
                return F.f[0]
        return S('disp', I.freeze(v))
    if isinstance(v, TS):
        return ts_string(v)
    return S('disp', I.freeze(v))


STR_OPS = {'cat', 'str', 'rs', 'py', 'sp', 'ss', 'piece', 'line', 'before', 'after', 'trim', 'trim_end', 'trim_start', 'lower', 'upper', 'replace', 'popped', 'pathjoin',
           'retained', 'truncated', 'inserted', 'disp', 'debug', 'fmtdoc', 'name', 'pyseg', 'atom', 'tail', 'join', 'tname', 'pathparent', 'arg', 'rbefore', 'rafter', 'pytok'}


def is_strterm(v):
    return v.op in STR_OPS


def pystr(v):
    """Python's str() of an object"""
    if v.op == 'pystr':
        return v.args[0]
    if v.op == 'pyname' or v.op == 'strobj':
        return S('str', v)
    return S('str', v)


def padded(x, fl):
    opts, width, prec, indirect = fl
    if not isinstance(x, str) or indirect or opts >> 21 & 7:
        return S('formatted', x, repr(fl))
    num = re.fullmatch(r'-?[0-9]+', x)
    if opts >> 24 & 1 and num:
        return x if width is None else x[:x.startswith('-')] + x.lstrip('-').rjust(width - x.startswith('-'), '0')
    if opts >> 23 & 1 or opts >> 25 & 3:
        return S('formatted', x, repr(fl))
    if prec is not None:
        x = x[:prec]
    fill, al = chr(opts & 0x1fffff) if opts else ' ', opts >> 29 & 3
    if width is None or len(x) >= width:
        return x
    n = width - len(x)
    if al == 3 or not opts:
        al = 1 if num else 0
    l = n if al == 1 else n // 2 if al == 2 else 0
    return fill * l + x + fill * (n - l)


@model("core::fmt::Arguments::<'a>::new")
def _(I, a, ref, rt):
    tb = I.deref(a[0])
    tb = tb.list() if isinstance(tb, Slice) else tb.items
    args = I.deref(a[1])
    args = args.list() if isinstance(args, Slice) else args.items
    out = []
    for p in fmt_template(tb):
        if isinstance(p, str):
            out.append(p)
        else:
            x = args[p[0]]
            out.append(padded(x, p[1]) if p[1] else x)
    return Adt('core::fmt::Arguments', 0, [cat(*out)])


@model("core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::from_str_nonconst")
def _(I, a, ref, rt):
    return Adt('core::fmt::Arguments', 0, [sv(I, a[0])])


@model("core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_pointer",
       "core::fmt::rt::Argument::<'_>::new_lower_hex")
def _(I, a, ref, rt):
    k = ref['name'].split('_')[-1]
    if k == 'pointer':
        I.event('nondet', 'pointer formatting', ())
        return S('pointer', I.path.fresh())
    v = I.deref(a[0])
    if k == 'display' and isinstance(v, int) and not isinstance(v, bool) and any(isinstance(x, int) and tstr(I, x).lstrip('&') == 'char' for x in ref['args']):
        return chr(v)
    return display(I, a[0], k == 'debug')


@model('alloc::fmt::format')
def _(I, a, ref, rt):
    return a[0].f[0]


@model("core::fmt::Formatter::<'a>::write_fmt")
def _(I, a, ref, rt):
    F = I.deref(a[0])
    F.f[0] = cat(F.f[0], a[1].f[0])
    return ok(UNIT)


@model("core::fmt::Formatter::<'a>::write_str", "core::fmt::Formatter::<'a>::pad")
def _(I, a, ref, rt):
    F = I.deref(a[0])
    F.f[0] = cat(F.f[0], sv(I, a[1]))
    return ok(UNIT)


@model('core::fmt::Write::write_str', 'core::fmt::Write::write_fmt', 'core::fmt::Write::write_char')
def _(I, a, ref, rt):
    r = I.deref(a[0])
    t = a[1].f[0] if isinstance(a[1], Adt) else (chr(a[1]) if isinstance(a[1], int) else sv(I, a[1]))
    if isinstance(r, Adt):
        r.f[0] = cat(r.f[0], t)
    else:
        smut(I, a[0], lambda s: cat(s, t))
    return ok(UNIT)


@model('core::fmt::Display::fmt', 'core::fmt::Debug::fmt')
def _(I, a, ref, rt):
    F = I.deref(a[1])
    F.f[0] = cat(F.f[0], display(I, a[0], 'Debug' in ref['name']))
    return ok(UNIT)


@model('core::hint::must_use', 'core::convert::identity')
def _(I, a, ref, rt):
    return a[0]


@model('alloc::string::ToString::to_string')
def _(I, a, ref, rt):
    v = I.deref(a[0])
    if isinstance(v, int) and not isinstance(v, bool) and any(isinstance(x, int) and tstr(I, x).lstrip('&') == 'char' for x in ref['args']):
        return chr(v)
    return display(I, a[0])


@model('std::io::stdio::_eprint')
def _(I, a, ref, rt):
    I.event('eprint', '', (a[0].f[0],))
    return UNIT


@model('std::io::stdio::_print')
def _(I, a, ref, rt):
    I.event('stdout', 'print', (a[0].f[0],))
    return UNIT


# ---------------------------------------------------------------- panics
@model('core::panicking::panic_fmt', 'core::panicking::panic', 'core::panicking::unreachable_default_msg', 'core::panicking::panic_display',
       'std::rt::begin_panic', 'core::panicking::unreachable_display', 'core::panicking::panic_explicit', 'core::panicking::panic_nounwind', 'core::panicking::assert_failed',
       'core::option::expect_failed', 'core::panicking::panic_str_2015', 'std::rt::panic_fmt', 'core::panicking::panic_cannot_unwind')
def _(I, a, ref, rt):
    m = ''
    if a and isinstance(a[0], Adt) and a[0].p.startswith('core::fmt::Arguments'):
        m = repr(a[0].f[0])
    elif a and isinstance(a[0], str):
        m = a[0]
    I.panic(ref['name'].split('::')[-1], m, cause=last_fact(I))


def last_fact(I):
    for e in reversed(I.path.log):
        if e[0] in ('fact', 'variant'):
            return repr(e[1:])
    return None


@model('std::process::exit', 'std::process::abort')
def _(I, a, ref, rt):
    I.event('exit', ref['name'], a)
    raise Stop('exit %r' % (a,))


# ---------------------------------------------------------------- clone / eq / ord / default / conversions
def clone(I, v, d=0):
    if isinstance(v, Adt):
        return Adt(v.p, v.v, [clone(I, x, d + 1) for x in v.f])
    if isinstance(v, Tup):
        return Tup([clone(I, x, d + 1) for x in v.f])
    if isinstance(v, Lst):
        return Lst([clone(I, x, d + 1) for x in v.items])
    if isinstance(v, Box_):
        return v if v.kind == 'rc' else Box_(clone(I, v.f[0], d + 1), v.kind)
    if isinstance(v, HMap):
        h = HMap(v.is_set, v.hasher)
        h.keys, h.vals = [clone(I, x) for x in v.keys], [clone(I, x) for x in v.vals]
        return h
    if isinstance(v, TS):
        return TS(list(v.t))
    if isinstance(v, It):
        return v.clone(I)
    if isinstance(v, Clo):
        return Clo(v.key, [clone(I, x) for x in v.f])
    return v


@model('core::clone::Clone::clone')
def _(I, a, ref, rt):
    v = a[0]
    if isinstance(v, Ref):
        v = v.get()
    elif isinstance(v, Slice):
        return Lst([clone(I, x) for x in v.list()])
    if isinstance(v, Sym):
        l = I.path.memo.get(('list', v))
        if l is not None:
            return clone(I, l)
    return clone(I, v)


@model('core::clone::Clone::clone_from')
def _(I, a, ref, rt):
    a[0].set(clone(I, I.deref(a[1])))
    return UNIT


@model('alloc::borrow::ToOwned::to_owned', 'alloc::slice::<impl [T]>::to_vec', 'alloc::slice::<impl [T]>::into_vec')
def _(I, a, ref, rt):
    v = a[0]
    if isinstance(v, Ref):
        v = v.get()
    if isinstance(v, Slice):
        return Lst([clone(I, x) for x in v.list()])
    return clone(I, v)


@model('alloc::borrow::ToOwned::clone_into')
def _(I, a, ref, rt):
    v = I.deref(a[0])
    a[1].set(clone(I, v))
    return UNIT


def eq_term(I, a, b, d=0):
    a, b = I.deref(a), I.deref(b)
    if a is b and not isinstance(a, float):
        return True
    if isinstance(a, Slice) or isinstance(b, Slice) or isinstance(a, Lst) or isinstance(b, Lst):
        if (isinstance(a, Sym) and a.op == 'bytes') or (isinstance(b, Sym) and b.op == 'bytes'):
            x, y = (a, b) if isinstance(a, Sym) else (b, a)
            ib = y.list() if isinstance(y, Slice) else y.items if isinstance(y, Lst) else None
            return mk_eq(x.args[0], bytes(ib).decode()) if ib is not None else mk_eq(x, y)
        ia, la, ha = I.seq(a)
        ib, lb, hb = I.seq(b)
        if ha - la != hb - lb:
            return False
        return and_terms([eq_term(I, ia[la + i], ib[lb + i], d + 1) for i in range(ha - la)])
    if isinstance(a, Sym) and isinstance(b, Adt) or isinstance(b, Sym) and isinstance(a, Adt):
        s, x = (a, b) if isinstance(a, Sym) else (b, a)
        if x.p in I.P.adts and I.P.adts[x.p]['kind'] == 'enum':
            if not x.f:
                nm = I.P.adts[x.p]['v'][x.v]['n']
                known = I.path.memo.get(('adt', s))
                if known is not None:
                    return known.v == x.v
                if s.ty is None:
                    s.ty = (I.P.crate, find_type(I, x.p))
            v = I.variant_value(s, None, None, find_type(I, x.p))
            return eq_term(I, v, x, d + 1)
        if len(x.f) == 1:
            return eq_term(I, S('f', s, 0), x.f[0])
        raise Undecided('eq %r %r' % (a, b))
    if isinstance(a, Adt) and isinstance(b, Adt):
        if a.p == b.p:
            bdy = None
            for (t, st, it), bd in I.P.impls.items():
                if it == 'eq' and t.startswith('core::cmp::PartialEq') and st.split('<')[0] == a.p and bd['impl']['derived'] not in (True, 'true'):
                    bdy = bd
            if bdy is not None and not getattr(I, '_in_eq', None) == bdy['key']:
                r = I.call_body(bdy, [Ref([a]), Ref([b])])
                return r
        if a.v != b.v or len(a.f) != len(b.f):
            return False
        return and_terms([eq_term(I, x, y, d + 1) for x, y in zip(a.f, b.f)])
    if isinstance(a, Adt) and len(a.f) == 1 and isinstance(b, (str, Sym)):
        return eq_term(I, a.f[0], b)
    if isinstance(b, Adt) and len(b.f) == 1 and isinstance(a, (str, Sym)):
        return eq_term(I, a, b.f[0])
    if isinstance(a, Tup) and isinstance(b, Tup):
        return and_terms([eq_term(I, x, y, d + 1) for x, y in zip(a.f, b.f)])
    if isinstance(a, HMap) and isinstance(b, HMap):
        return hmap_eq(I, a, b)
    if isinstance(a, (str, int, bool, Sym)) and isinstance(b, (str, int, bool, Sym)):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and x.op == 'char0' and isinstance(y, int):
                return str_atom(I, 'prefix', x.args[0], chr(y))
            if isinstance(x, Sym) and x.op == 'lastchar' and isinstance(y, int):
                return str_atom(I, 'suffix', x.args[0], chr(y))
        if isinstance(a, str) and isinstance(b, str) or isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            return a == b
        if isinstance(a, Sym) and isinstance(b, Sym) and a.op == 'rs' and b.op == 'rs':
            a, b = a.args[0], b.args[0]     # the escaped spelling is injective (decided separately, C08)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and x.op == 'rs' and isinstance(y, str):
                if y.startswith('r#'):
                    return mk_known(I, x.args[0], y[2:]) if not ident_lexes(y[2:]) else False
                return mk_known(I, x.args[0], y) if ident_lexes(y) else False
        return mk_known(I, a, b)
    if isinstance(a, TS) or isinstance(b, TS):
        return S('ts_eq', I.freeze(a), I.freeze(b))
    raise Undecided('eq %r %r' % (a, b))


def mk_known(I, a, b):
    k = I.path.known_eq(a, b)
    return k if k is not None else mk_eq(a, b)


def find_type(I, p):
    for i, t in enumerate(I.T):
        if t and t['k'] == 'adt' and t['p'] == p:
            return i
    raise Undecided('type ' + p)


def hmap_eq(I, a, b):
    if not a.is_set:
        raise Undecided('map equality')
    return S('set_eq', I.freeze(a), I.freeze(b)) if any(isinstance(I.freeze(x), Sym) for x in a.keys + b.keys) else \
        set(map(I.freeze, a.keys)) == set(map(I.freeze, b.keys))


@model('core::cmp::PartialEq::eq')
def _(I, a, ref, rt):
    return eq_term(I, a[0], a[1])


@model('core::cmp::PartialEq::ne')
def _(I, a, ref, rt):
    return negate(eq_term(I, a[0], a[1]))


def cmp_values(I, a, b):
    a, b = I.deref(a), I.deref(b)
    if isinstance(a, str) and isinstance(b, str) or isinstance(a, int) and isinstance(b, int):
        x, y = (a.encode(), b.encode()) if isinstance(a, str) else (a, b)
        return -1 if x < y else (0 if x == y else 1)
    if isinstance(a, (Sym, str, int)) and isinstance(b, (Sym, str, int)):
        if I.path.decide(eq_term(I, a, b)):
            return 0
        t = S('lt', a, b)
        r = S('lt', b, a)
        if r in I.path.facts:
            return 1 if I.path.facts[r] else -1
        return -1 if I.path.decide(t) else 1
    if isinstance(a, (Lst, Slice)):
        x, y = list_of(I, a), list_of(I, b)
        for p, q in zip(x, y):
            c = cmp_values(I, p, q)
            if c:
                return c
        return (len(x) > len(y)) - (len(x) < len(y))
    if isinstance(a, Tup):
        for p, q in zip(a.f, b.f):
            c = cmp_values(I, p, q)
            if c:
                return c
        return 0
    if isinstance(a, Adt):
        for (t, st, it), bd in I.P.impls.items():
            if it == 'cmp' and t == 'core::cmp::Ord' and st.split('<')[0] == a.p and bd['impl']['derived'] not in (True, 'true'):
                return I.call_body(bd, [Ref([a]), Ref([b])]).v - 1
        if a.v != b.v:
            return -1 if a.v < b.v else 1
        for p, q in zip(a.f, b.f):
            c = cmp_values(I, p, q)
            if c:
                return c
        return 0
    raise Undecided('cmp %r %r' % (a, b))


@model('core::cmp::Ord::cmp')
def _(I, a, ref, rt):
    return Adt(ORD, cmp_values(I, a[0], a[1]) + 1, [])


@model('core::cmp::PartialOrd::partial_cmp')
def _(I, a, ref, rt):
    return some(Adt(ORD, cmp_values(I, a[0], a[1]) + 1, []))


@model('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge')
def _(I, a, ref, rt):
    c = cmp_values(I, a[0], a[1])
    k = ref['name'][-2:]
    return {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0}[k]


@model('core::cmp::Ord::max', 'core::cmp::Ord::min', 'core::cmp::max', 'core::cmp::min')
def _(I, a, ref, rt):
    c = cmp_values(I, a[0], a[1])
    if ref['name'].endswith('max'):
        return a[1] if c <= 0 else a[0]
    return a[0] if c <= 0 else a[1]


@model('core::cmp::Ordering::reverse')
def _(I, a, ref, rt):
    return Adt(ORD, 2 - a[0].v, [])


@model('core::cmp::Ordering::then_with')
def _(I, a, ref, rt):
    return a[0] if a[0].v != 1 else I.call_value(a[1], [])


@model('core::cmp::Ordering::then')
def _(I, a, ref, rt):
    return a[0] if a[0].v != 1 else a[1]


def default_of(I, t):
    k, s = t['k'], t['s']
    if t.get('p', '').endswith('PhantomData'):
        return Tup([])
    if dflt_hook(I, t) is not None:
        return dflt_hook(I, t)
    if s == 'bool':
        return False
    if s == '()':
        return Tup([])
    if k == 'prim' and s not in ('str', '!'):
        return 0
    if k == 'ref':
        x = I.T[t['t']]
        if x['s'] == 'str':
            return ''
        if x['k'] == 'slice':
            return Slice([])
    if k == 'tuple':
        return Tup([default_of(I, I.T[x]) for x in t['a']])
    if k == 'adt':
        p = t['p']
        if p == 'alloc::string::String' or p.endswith('path::PathBuf'):
            return ''
        if p == 'alloc::vec::Vec' or p.endswith('VecDeque'):
            return Lst([])
        if p.endswith('hash::map::HashMap') or p.endswith('btree::map::BTreeMap'):
            return HMap(False, hasher_of(I, t))
        if p.endswith('hash::set::HashSet') or p.endswith('btree::set::BTreeSet'):
            return HMap(True, hasher_of(I, t))
        if p == OPTION:
            return none()
        if p.endswith('TokenStream'):
            return TS()
        if p.endswith('Cow'):
            return ''
        if p.endswith('boxed::Box'):
            return Box_(default_of(I, I.T[t['a'][0]]))
        for (tr, st, it), b in I.P.impls.items():
            if it == 'default' and tr == 'core::default::Default' and st.split('<')[0] == p:
                return I.call_body(b, [])
    raise Undecided('default of ' + s)


def hasher_of(I, t):
    if 'btree' in t['p']:
        return 'ordered'
    hs = [tstr(I, x) for x in t['a'] if isinstance(x, int)]
    hs = [h for h in hs if 'Hasher' in h or 'RandomState' in h]
    return hs[-1] if hs else '?'


@model('core::default::Default::default')
def _(I, a, ref, rt):
    t = tinfo(I, ref['args'][0]) if ref['args'] else rttype(I, rt)
    if t['k'] == 'param':
        t = rttype(I, rt)
    return default_of(I, t)


@model('core::convert::AsRef::as_ref', 'core::borrow::Borrow::borrow', 'core::convert::AsMut::as_mut')
def _(I, a, ref, rt):
    v = a[0]
    d = I.deref(v)
    if isinstance(d, (str, Sym)):
        return d
    if isinstance(d, (Lst,)):
        return Slice(d.items)
    while isinstance(v, Ref) and isinstance(v.get(), (Ref, Box_)):      # through references and into a box
        w = v.get()
        v = w if isinstance(w, Ref) else Ref(w.f)
        if isinstance(w, Box_):
            break
    return v


@model('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut')
def _(I, a, ref, rt):
    v = a[0]
    if isinstance(v, Ref):
        x = v.get()
        if isinstance(x, Lst):
            return Slice(x.items)
        if isinstance(x, str):
            return x
        if isinstance(x, Box_):
            return Ref(x.f, 0)
        if isinstance(x, Sym):
            return x
        if isinstance(x, Adt) and len(x.f) == 1:
            return x.f[0] if isinstance(x.f[0], (str, Sym)) else Ref(x.f, 0)
        if isinstance(x, Adt) and x.p.endswith('Cow'):
            return x.f[0]
    return v


@model('core::convert::Into::into', 'core::convert::From::from', 'core::convert::TryInto::try_into', 'core::convert::TryFrom::try_from', 'pyo3::conversion::IntoPy::into_py')
def conv(I, a, ref, rt):
    v = a[0]
    inner = ref.get('inner')
    item = ref['item']
    if inner and inner['key'] in I.P.bodies:
        b = I.P.bodies[inner['key']]
        return I.call_local(b, [v], ref, rt)
    t = rttype(I, rt)
    if item in ('into', 'from', 'into_py'):
        p = t.get('p', '')
        d = I.deref(v)
        if p.endswith('boxed::Box'):
            return Box_(v)
        if p.endswith('rc::Rc') or p.endswith('sync::Arc'):
            return Box_(v, 'rc')
        if p == 'alloc::string::String' or p.endswith('PathBuf') or p.endswith('borrow::Cow') or p.endswith('OsString'):
            return sv(I, v)
        if p == 'alloc::vec::Vec' and not isinstance(d, str):
            return Lst(list(list_of(I, d)))
        if p == 'alloc::vec::Vec' or p.endswith('VecDeque') or 'hash::' in p and p.endswith(('HashMap', 'HashSet')) or 'btree::' in p:
            if isinstance(d, str):
                return Lst(list(d.encode()))
            return collect_into(I, t, list_of(I, d))
        if p == OPTION:
            return v if isinstance(v, Adt) and v.p == OPTION else some(v)
        b = from_impl(I, t['s'], v)
        if b is not None:
            return I.call_local(b, [v], ref, rt)
        if t['k'] == 'prim':
            return v if not isinstance(v, bool) else int(v)
        if isinstance(d, Sym):
            if d.op == 'pyerr' or p.endswith('PyErr'):
                return d
            return S('into', d, ty=rt)
        return v
    if item in ('try_into', 'try_from') and t.get('p') == RESULT:
        e = I.T[t['a'][0]]
        d = I.deref(v)
        if e['s'] in ('usize', 'isize', 'u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64') and isinstance(d, int):
            n = {'size': 64}.get(e['s'][1:]) or int(e['s'][1:])
            lo, hi = (0, 2 ** n) if e['s'][0] == 'u' else (-2 ** (n - 1), 2 ** (n - 1))
            return ok(d) if lo <= d < hi else err(S('convertcause', d))
        if e['k'] == 'array' and isinstance(d, (Lst, Slice)):
            n = re.search(r'; (\d+)', e['s'])
            if n:
                return ok(Lst(list(list_of(I, d)))) if len(list_of(I, d)) == int(n.group(1)) else err(v)
    raise Undecided('conversion %s -> %s' % (ref['name'], t['s']))


def from_impl(I, target, v):
    """local `impl From<X> for target` whose X fits the value"""
    cands = []
    for (tr, st, it), b in I.P.impls.items():
        if it == 'from' and tr.startswith('core::convert::From<') and st == target:
            cands.append((tr[len('core::convert::From<'):-1], b))
    for src, b in cands:
        if isinstance(v, Sym) and v.op in ('pyerr',) and src.endswith('PyErr'):
            return b
        if isinstance(v, Sym) and v.op == 'synerr' and src.startswith('syn::error::Error'):
            return b
        if isinstance(v, Sym) and v.op == 'ioerr' and 'std::io' in src or isinstance(v, Sym) and v.op == 'ioerr' and 'io::error' in src:
            return b
        if isinstance(v, Adt) and src.split('<')[0] == v.p:
            return b
    return None


@model('alloc::boxed::Box::<T>::new', 'alloc::boxed::Box::<T>::pin')
def _(I, a, ref, rt):
    return Box_(a[0])


@model('alloc::rc::Rc::<T>::new', 'alloc::rcs::rc::Rc::<T>::new', 'alloc::sync::Arc::<T>::new')
def _(I, a, ref, rt):
    return Box_(a[0], 'rc')


@model('alloc::rcs::rc::Rc::<T, A>::into_inner', 'alloc::rcs::rc::Rc::<T, A>::unwrap_or_clone', 'alloc::rcs::rc::Rc::<T, A>::try_unwrap')
def _(I, a, ref, rt):
    # reference counts are not tracked: both outputs of one OutputType share a count that the analysis takes as released
    v = clone(I, a[0].f[0])
    if ref['name'].endswith('unwrap_or_clone'):
        return v
    return some(v) if ref['name'].endswith('into_inner') else ok(v)


@model('alloc::boxed::Box::<T>::new_uninit')
def _(I, a, ref, rt):
    return Box_(UNINIT, 'uninit')


@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def _(I, a, ref, rt):
    v = a[0].f[0]
    while isinstance(v, (Adt, Tup)) and not isinstance(v, Lst):
        v = [x for x in v.f if x is not UNINIT][0]
    return v if isinstance(v, Lst) else Lst(list_of(I, v))


@model('core::mem::replace')
def _(I, a, ref, rt):
    old = a[0].get()
    a[0].set(a[1])
    return old


@model('core::mem::take')
def _(I, a, ref, rt):
    old = a[0].get()
    t = tinfo(I, ref['args'][0])
    a[0].set(default_of(I, t))
    return old


@model('core::mem::swap')
def _(I, a, ref, rt):
    x, y = a[0].get(), a[1].get()
    a[0].set(y)
    a[1].set(x)
    return UNIT


@model('core::mem::drop')
def _(I, a, ref, rt):
    I.drop([a[0]], 0)
    return UNIT


@model('core::ops::drop::Drop::drop')
def _(I, a, ref, rt):
    return UNIT


# ---------------------------------------------------------------- closures
@model('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call')
def _(I, a, ref, rt):
    args = a[1].f if isinstance(a[1], Tup) else list(a[1:])
    return I.call_value(a[0], args)


# ---------------------------------------------------------------- Try
@model('core::ops::try_trait::Try::branch')
def _(I, a, ref, rt):
    v = a[0]
    if isinstance(v, Sym):
        v = I.variant_value(v, None, None, ref['args'][0])
    if v.p == RESULT:
        return Adt(FLOW, 0, [v.f[0]]) if v.v == 0 else Adt(FLOW, 1, [err(v.f[0])])
    if v.p == OPTION:
        return Adt(FLOW, 0, [v.f[0]]) if v.v == 1 else Adt(FLOW, 1, [none()])
    if v.p == FLOW:
        return v if v.v == 0 else Adt(FLOW, 1, [v])
    raise Undecided('branch %r' % (v,))


@model('core::ops::try_trait::Try::from_output')
def _(I, a, ref, rt):
    t = rttype(I, rt)
    if t.get('p') == OPTION:
        return some(a[0])
    return ok(a[0])


@model('core::ops::try_trait::FromResidual::from_residual')
def _(I, a, ref, rt):
    r = I.deref(a[0])
    t = rttype(I, rt)
    if t.get('p') == OPTION:
        return none()
    e = r.f[0]
    if t.get('p') == RESULT:
        et = tinfo(I, t['a'][1])
        return err(conv_err(I, e, et))
    return err(e)


def conv_err(I, e, et):
    b = from_impl(I, et['s'], e)
    if b is not None and not (isinstance(e, Adt) and e.p == et.get('p')):
        return I.call_local(b, [e], {'args': [], 'name': b['name'], 'item': 'from', 'res': None}, None)
    return e


# ---------------------------------------------------------------- Option / Result
def var(I, v, ref=None, i=0):
    """Option/Result value behind v with a known variant"""
    holder = None
    while isinstance(v, (Ref, Box_)):
        holder = v
        v = v.get() if isinstance(v, Ref) else v.f[0]
    if isinstance(v, Sym):
        t = None
        if v.ty is None and ref is not None:
            nm = ref['name']
            t = None
        v = I.variant_value(v, *((holder.c, holder.k) if isinstance(holder, Ref) else (None, None)), tyid=None if v.ty else t)
    return v


def good(v):
    return (v.p == OPTION and v.v == 1) or (v.p == RESULT and v.v == 0)


O = 'core::option::Option::<T>::'
R = 'core::result::Result::<T, E>::'


@model(O + 'is_some', O + 'is_none', R + 'is_ok', R + 'is_err')
def _(I, a, ref, rt):
    v = var(I, a[0])
    g = good(v)
    return g if ref['name'].endswith(('is_some', 'is_ok')) else not g


@model(O + 'is_some_and', R + 'is_ok_and')
def _(I, a, ref, rt):
    v = var(I, a[0])
    return I.call_value(a[1], [v.f[0]]) if good(v) else False


@model(O + 'is_none_or')
def _(I, a, ref, rt):
    v = var(I, a[0])
    return I.call_value(a[1], [v.f[0]]) if good(v) else True


@model(R + 'is_err_and')
def _(I, a, ref, rt):
    v = var(I, a[0])
    return False if good(v) else I.call_value(a[1], [v.f[0]])


@model(O + 'unwrap', R + 'unwrap', O + 'expect', R + 'expect')
def _(I, a, ref, rt):
    v = var(I, a[0])
    if good(v):
        return v.f[0]
    I.panic('unwrap', ref['name'].split('::')[-1] + (' on Err(%r)' % (I.freeze(v.f[0]),) if v.p == RESULT else ' on None'), cause=last_fact(I))


@model(R + 'unwrap_err', R + 'expect_err')
def _(I, a, ref, rt):
    v = var(I, a[0])
    if not good(v):
        return v.f[0]
    I.panic('unwrap', 'unwrap_err on Ok', cause=last_fact(I))


@model(O + 'unwrap_or', R + 'unwrap_or')
def _(I, a, ref, rt):
    v = var(I, a[0])
    return v.f[0] if good(v) else a[1]


@model(O + 'unwrap_or_default', R + 'unwrap_or_default')
def _(I, a, ref, rt):
    v = var(I, a[0])
    if good(v):
        return v.f[0]
    t = rttype(I, rt)
    return default_of(I, t)


@model(O + 'unwrap_or_else', R + 'unwrap_or_else')
def _(I, a, ref, rt):
    v = var(I, a[0])
    if good(v):
        return v.f[0]
    return I.call_value(a[1], [] if v.p == OPTION else [v.f[0]])


@model(O + 'map', R + 'map')
def _(I, a, ref, rt):
    v = var(I, a[0])
    if good(v):
        r = I.call_value(a[1], [v.f[0]])
        return some(r) if v.p == OPTION else ok(r)
    return v


@model(R + 'map_err')
def _(I, a, ref, rt):
    v = var(I, a[0])
    return v if good(v) else err(I.call_value(a[1], [v.f[0]]))


@model(O + 'map_or', R + 'map_or')
def _(I, a, ref, rt):
    v = var(I, a[0])
    return I.call_value(a[2], [v.f[0]]) if good(v) else a[1]


@model(O + 'map_or_else', R + 'map_or_else')
def _(I, a, ref, rt):
    v = var(I, a[0])
    return I.call_value(a[2], [v.f[0]]) if good(v) else I.call_value(a[1], [] if v.p == OPTION else [v.f[0]])


@model(O + 'and_then', R + 'and_then')
def _(I, a, ref, rt):
    v = var(I, a[0])
    return I.call_value(a[1], [v.f[0]]) if good(v) else v


@model(O + 'or_else', R + 'or_else')
def _(I, a, ref, rt):
    v = var(I, a[0])
    return v if good(v) else I.call_value(a[1], [] if v.p == OPTION else [v.f[0]])


@model(O + 'or', R + 'or')
def _(I, a, ref, rt):
    v = var(I, a[0])
    return v if good(v) else a[1]


@model(O + 'and', R + 'and')
def _(I, a, ref, rt):
    v = var(I, a[0])
    return a[1] if good(v) else v


@model(O + 'filter')
def _(I, a, ref, rt):
    v = var(I, a[0])
    if good(v) and I.path.decide(I.call_value(a[1], [Ref(v.f, 0)])):
        return v
    return none()


@model(O + 'ok_or', O + 'ok_or_else')
def _(I, a, ref, rt):
    v = var(I, a[0])
    if good(v):
        return ok(v.f[0])
    return err(a[1] if ref['name'].endswith('ok_or') else I.call_value(a[1], []))


@model(R + 'ok')
def _(I, a, ref, rt):
    v = var(I, a[0])
    return some(v.f[0]) if good(v) else none()


@model(R + 'err')
def _(I, a, ref, rt):
    v = var(I, a[0])
    return none() if good(v) else some(v.f[0])


@model(O + 'as_ref', R + 'as_ref', O + 'as_mut', R + 'as_mut', O + 'as_deref', R + 'as_deref', O + 'as_deref_mut', O + 'as_slice')
def _(I, a, ref, rt):
    v = var(I, a[0])
    if not v.f:
        return v
    x = v.f[0]
    if ref['name'].endswith(('deref', 'deref_mut')):
        r = M['core::ops::deref::Deref::deref'](I, [Ref(v.f, 0)], ref, rt)
    else:
        r = Ref(v.f, 0)
    return Adt(v.p, v.v, [r])


@model("core::option::Option::<&T>::cloned", "core::option::Option::<&T>::copied", "core::option::Option::<&mut T>::cloned", "core::result::Result::<&T, E>::cloned",
       "core::result::Result::<&T, E>::copied")
def _(I, a, ref, rt):
    v = var(I, a[0])
    if good(v):
        x = v.f[0]
        x = x.get() if isinstance(x, Ref) else x
        return Adt(v.p, v.v, [clone(I, x)])
    return v


@model(O + 'take')
def _(I, a, ref, rt):
    v = var(I, a[0])
    r = a[0]
    while isinstance(r.get(), Ref):
        r = r.get()
    r.set(none())
    return v


@model(O + 'replace')
def _(I, a, ref, rt):
    v = var(I, a[0])
    a[0].set(some(a[1]))
    return v


@model(O + 'insert', O + 'get_or_insert')
def _(I, a, ref, rt):
    v = var(I, a[0])
    if not (ref['name'].endswith('get_or_insert') and good(v)):
        v = some(a[1])
        a[0].set(v)
    return Ref(v.f, 0)


@model(O + 'get_or_insert_with')
def _(I, a, ref, rt):
    v = var(I, a[0])
    if not good(v):
        v = some(I.call_value(a[1], []))
        a[0].set(v)
    return Ref(v.f, 0)


@model(O + 'iter', R + 'iter')
def _(I, a, ref, rt):
    v = var(I, a[0])
    return ListIt([Ref(v.f, 0)] if good(v) else [])


@model(O + 'zip')
def _(I, a, ref, rt):
    v, w = var(I, a[0]), var(I, a[1])
    return some(Tup([v.f[0], w.f[0]])) if good(v) and good(w) else none()


@model(O + 'xor')
def _(I, a, ref, rt):
    v, w = var(I, a[0]), var(I, a[1])
    return v if good(v) and not good(w) else (w if good(w) and not good(v) else none())


@model('core::option::Option::<core::option::Option<T>>::flatten', 'core::result::Result::<core::result::Result<T, E>, E>::flatten')
def _(I, a, ref, rt):
    v = var(I, a[0])
    return v.f[0] if good(v) else v


@model('core::option::Option::<core::result::Result<T, E>>::transpose')
def _(I, a, ref, rt):
    v = var(I, a[0])
    if not good(v):
        return ok(none())
    w = var(I, v.f[0])
    return ok(some(w.f[0])) if good(w) else w


@model('core::result::Result::<core::option::Option<T>, E>::transpose')
def _(I, a, ref, rt):
    v = var(I, a[0])
    if not good(v):
        return some(v)
    w = var(I, v.f[0])
    return some(ok(w.f[0])) if good(w) else none()


@model(R + 'inspect_err', O + 'inspect', R + 'inspect')
def _(I, a, ref, rt):
    v = var(I, a[0])
    g = good(v)
    if g != ref['name'].endswith('err'):
        I.call_value(a[1], [Ref(v.f, 0)])
    return v


@model('core::bool::<impl bool>::then', 'core::bool::<impl bool>::then_some')
def _(I, a, ref, rt):
    if I.path.decide(a[0]):
        return some(a[1] if ref['name'].endswith('some') else I.call_value(a[1], []))
    return none()


# ---------------------------------------------------------------- iterators
class It:
    def drain(self, I):
        out = []
        while True:
            x = self.next(I)
            if x is END:
                return out
            out.append(x)
            if len(out) > 3000:
                raise Undecided('unbounded iterator')

    def next_back(self, I):
        self._mat(I)
        return self._buf.pop() if self._buf else END

    def _mat(self, I):
        if getattr(self, '_buf', None) is None:
            self._buf = self.drain(I)
            self.next = self._nextbuf

    def _nextbuf(self, I):
        return self._buf.pop(0) if self._buf else END

    def clone(self, I):
        self._mat(I)
        return ListIt(list(self._buf))


class ListIt(It):
    def __init__(self, items):
        self.items, self.i, self.j = items, 0, len(items)

    def next(self, I):
        if self.i < self.j:
            self.i += 1
            return self.items[self.i - 1]
        return END

    def next_back(self, I):
        if self.i < self.j:
            self.j -= 1
            return self.items[self.j]
        return END

    def clone(self, I):
        return ListIt(self.items[self.i:self.j])


class RangeIt(It):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def next(self, I):
        if I.path.decide(I.cmp('lt', self.a, self.b)):
            v = self.a
            self.a = add(self.a, 1)
            return v
        return END

    def next_back(self, I):
        if I.path.decide(I.cmp('lt', self.a, self.b)):
            self.b = sub(self.b, 1)
            return self.b
        return END

    def clone(self, I):
        return RangeIt(self.a, self.b)


class RepeatIt(It):
    def __init__(self, v, f=None):
        self.v, self.f = v, f

    def next(self, I):
        return clone(I, self.v) if self.f is None else I.call_value(self.f, [])

    def clone(self, I):
        return RepeatIt(self.v, self.f)


class FnIt(It):
    """adaptor: step(I) -> value | END"""

    def __init__(self, step, back=None):
        self._step, self._back = step, back

    def next(self, I):
        return self._step(I)

    def next_back(self, I):
        if self._back is not None and getattr(self, '_buf', None) is None:
            return self._back(I)
        return It.next_back(self, I)


class SymCountIt(It):
    """occurrences of a pattern in an unknown string: only their number is used"""

    def __init__(self, n, s, p):
        self.n, self.s, self.p = n, s, p

    def next(self, I):
        if isinstance(self.p, str) and not getattr(self, 'started', False):
            self.started = True
            return self.p if I.path.decide(str_atom(I, 'contains', self.s, self.p)) else END
        raise Undecided('individual matches in an unknown string')

    def count(self, I):
        if isinstance(self.p, str):
            c = I.path.known_str('contains', self.s, self.p)
            if c is False:
                return 0
            if c is True and not I.path.iv.get(self.n):
                I.path.iv[self.n] = [1, None]
        return self.n


class SymCharsIt(It):
    def __init__(self, s, idx):
        self.s, self.idx, self.n = s, idx, 0

    def next(self, I):
        if self.n == 0:
            self.n = 1
            if I.path.decide(mk_eq(self.s, '')):
                return END
            c = S('char0', self.s)
            return Tup([0, c]) if self.idx else c
        raise Undecided('individual characters of an unknown string')

    def next_back(self, I):
        if I.path.decide(mk_eq(self.s, '')):
            return END
        return S('lastchar', self.s)


def list_of(I, v):
    v = I.deref(v)
    if isinstance(v, Lst):
        return v.items
    if isinstance(v, Slice):
        return v.list()
    if isinstance(v, Sym):
        return I.as_list(v).items
    if isinstance(v, HMap):
        return v.keys if v.is_set else [Tup([k, x]) for k, x in zip(v.keys, v.vals)]
    if isinstance(v, It):
        return v.drain(I)
    raise Undecided('list of %r' % (v,))


def local_next(I, x):
    for (tr, st, it), b in I.P.impls.items():
        if it == 'next' and tr.startswith('core::iter::traits::iterator::Iterator') and st.split('<')[0] == x.p:
            return b
    return None


def user_iter(b, r):
    def step(I):
        x = var(I, I.call_body(b, [r]))
        return x.f[0] if good(x) else END
    return FnIt(step)


def to_iter(I, v, by_ref=None):
    if isinstance(v, It):
        return v
    if isinstance(v, Ref):
        x = v.get()
        if isinstance(x, It):
            return x
        if isinstance(x, (Ref, Slice)):
            return to_iter(I, x)
        if isinstance(x, Adt) and x.p not in (OPTION, RESULT) and not x.p.startswith('core::ops::range'):
            b = local_next(I, x)
            if b is not None:
                return user_iter(b, v)
        if isinstance(x, Box_):
            return to_iter(I, Ref(x.f, 0))
        if isinstance(x, Lst):
            return ListIt([Ref(x.items, i) for i in range(len(x.items))])
        if isinstance(x, HMap):
            note_hash_iter(I, x)
            if x.is_set:
                return ListIt([Ref(x.keys, i) for i in range(len(x.keys))])
            return ListIt([Tup([Ref(x.keys, i), Ref(x.vals, i)]) for i in range(len(x.keys))])
        if isinstance(x, Adt) and x.p in (OPTION, RESULT):
            return ListIt([Ref(x.f, 0)] if good(x) else [])
        if isinstance(x, Sym):
            l = I.as_list(x)
            return ListIt([Ref(l.items, i) for i in range(len(l.items))])
        if isinstance(x, Adt) and x.p.startswith('core::ops::range::'):
            r = to_iter(I, x)
            v.set(r)
            return r
        return to_iter(I, x)
    if isinstance(v, Slice):
        return ListIt([Ref(v.items, i) for i in range(v.lo, v.hi)])
    if isinstance(v, Lst):
        return ListIt(list(v.items))
    if isinstance(v, HMap):
        note_hash_iter(I, v)
        return ListIt(list(v.keys) if v.is_set else [Tup([k, x]) for k, x in zip(v.keys, v.vals)])
    if isinstance(v, Adt):
        if v.p == 'core::ops::range::Range':
            return RangeIt(v.f[0], v.f[1])
        if v.p == 'core::ops::range::RangeInclusive':
            return RangeIt(v.f[0], add(v.f[1], 1))
        if v.p == 'core::ops::range::RangeFrom':
            st = [v.f[0]]

            def step(I):
                st[0] = add(st[0], 1)
                return sub(st[0], 1)
            return FnIt(step)
        if v.p in (OPTION, RESULT):
            return ListIt([v.f[0]] if good(v) else [])
    if isinstance(v, TS):
        return ListIt([TS([t]) for t in v.t])
    if isinstance(v, Sym):
        t = I.T[v.ty[1]] if v.ty else None
        if t and t.get('p') in (OPTION, RESULT):
            return to_iter(I, I.variant_value(v))
        l = I.as_list(v)
        if t and t['k'] == 'ref':
            return ListIt([Ref(l.items, i) for i in range(len(l.items))])
        return ListIt(list(l.items))
    if isinstance(v, Adt):
        b = local_next(I, v)
        if b is not None:
            return user_iter(b, Ref([v]))
    raise Undecided('iterator over %r' % (v,))


def note_hash_iter(I, h):
    I.event('hash_iter', h.hasher or '?', ())


IT = 'core::iter::traits::iterator::Iterator::'


@model('core::iter::traits::collect::IntoIterator::into_iter')
def _(I, a, ref, rt):
    return to_iter(I, a[0])


@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'std::collections::hash::map::HashMap::<K, V, S, A>::iter',
       'std::collections::hash::set::HashSet::<T, S, A>::iter', 'std::collections::hash::map::HashMap::<K, V, S, A>::iter_mut',
       'alloc::collections::btree::set::BTreeSet::<T, A>::iter', 'alloc::collections::btree::map::BTreeMap::<K, V, A>::iter')
def _(I, a, ref, rt):
    return to_iter(I, a[0] if isinstance(a[0], (Ref, Slice, Sym)) else Ref([a[0]]))


@model(IT + 'by_ref')
def _(I, a, ref, rt):
    return a[0]


def it_of(I, v):
    return to_iter(I, v)


@model(IT + 'next', 'core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def _(I, a, ref, rt):
    r = a[0]
    it = it_of(I, r)
    if isinstance(r, Ref) and not isinstance(I.deref(r), It):
        while isinstance(r.get(), Ref):
            r = r.get()
        r.set(it)
    x = it.next(I) if ref['name'].endswith('::next') else it.next_back(I)
    return none() if x is END else some(x)


@model(IT + 'map')
def _(I, a, ref, rt):
    it, f = it_of(I, a[0]), a[1]

    def wrap(g):
        def step(I):
            x = g(I)
            return END if x is END else I.call_value(f, [x])
        return step
    return FnIt(wrap(it.next), wrap(it.next_back))


@model(IT + 'filter')
def _(I, a, ref, rt):
    it, f = it_of(I, a[0]), a[1]

    def wrap(g):
        def step(I):
            while True:
                x = g(I)
                if x is END:
                    return END
                if I.path.decide(I.call_value(f, [Ref([x])])):
                    return x
        return step
    return FnIt(wrap(it.next), wrap(it.next_back))


@model(IT + 'filter_map')
def _(I, a, ref, rt):
    it, f = it_of(I, a[0]), a[1]

    def wrap(g):
        def step(I):
            while True:
                x = g(I)
                if x is END:
                    return END
                r = var(I, I.call_value(f, [x]))
                if good(r):
                    return r.f[0]
        return step
    return FnIt(wrap(it.next), wrap(it.next_back))


@model(IT + 'inspect')
def _(I, a, ref, rt):
    it, f = it_of(I, a[0]), a[1]

    def step(I):
        x = it.next(I)
        if x is not END:
            I.call_value(f, [Ref([x])])
        return x
    return FnIt(step)


@model(IT + 'take_while', IT + 'map_while')
def _(I, a, ref, rt):
    it, f = it_of(I, a[0]), a[1]
    done = [False]
    mw = ref['name'].endswith('map_while')

    def step(I):
        if done[0]:
            return END
        x = it.next(I)
        if x is END:
            return END
        if mw:
            r = var(I, I.call_value(f, [x]))
            if good(r):
                return r.f[0]
        elif I.path.decide(I.call_value(f, [Ref([x])])):
            return x
        done[0] = True
        return END
    return FnIt(step)


@model(IT + 'skip_while')
def _(I, a, ref, rt):
    it, f = it_of(I, a[0]), a[1]
    st = [True]

    def step(I):
        while True:
            x = it.next(I)
            if x is END or not st[0]:
                return x
            if not I.path.decide(I.call_value(f, [Ref([x])])):
                st[0] = False
                return x
    return FnIt(step)


@model(IT + 'take')
def _(I, a, ref, rt):
    it, n = it_of(I, a[0]), [a[1]]
    if not isinstance(a[1], int):
        raise Undecided('take(symbolic)')

    def step(I):
        if n[0] <= 0:
            return END
        n[0] -= 1
        return it.next(I)
    return FnIt(step)


@model(IT + 'skip')
def _(I, a, ref, rt):
    it, n = it_of(I, a[0]), a[1]
    if not isinstance(n, int):
        raise Undecided('skip(symbolic)')
    st = [n]

    def step(I):
        while st[0] > 0:
            st[0] -= 1
            if it.next(I) is END:
                return END
        return it.next(I)
    return FnIt(step)


@model(IT + 'step_by')
def _(I, a, ref, rt):
    return ListIt(it_of(I, a[0]).drain(I)[::a[1]])


@model(IT + 'chain')
def _(I, a, ref, rt):
    x, y = it_of(I, a[0]), it_of(I, a[1])

    def step(I):
        v = x.next(I)
        return y.next(I) if v is END else v

    def back(I):
        v = y.next_back(I)
        return x.next_back(I) if v is END else v
    return FnIt(step, back)


@model(IT + 'zip', 'core::iter::adapters::zip::zip')
def _(I, a, ref, rt):
    x, y = it_of(I, a[0]), it_of(I, a[1])

    def step(I):
        v = x.next(I)
        if v is END:
            return END
        w = y.next(I)
        return END if w is END else Tup([v, w])
    return FnIt(step)


@model(IT + 'enumerate')
def _(I, a, ref, rt):
    it, n = it_of(I, a[0]), [0]

    def step(I):
        v = it.next(I)
        if v is END:
            return END
        n[0] += 1
        return Tup([n[0] - 1, v])
    return FnIt(step)


@model(IT + 'rev')
def _(I, a, ref, rt):
    it = it_of(I, a[0])
    return FnIt(lambda I: it.next_back(I), lambda I: it.next(I))


@model(IT + 'cloned', IT + 'copied')
def _(I, a, ref, rt):
    it = it_of(I, a[0])

    def wrap(g):
        def step(I):
            x = g(I)
            if x is END:
                return END
            return clone(I, x.get() if isinstance(x, Ref) else x)
        return step
    return FnIt(wrap(it.next), wrap(it.next_back))


@model(IT + 'peekable', IT + 'fuse')
def _(I, a, ref, rt):
    return PeekIt(it_of(I, a[0]))


class PeekIt(It):
    def __init__(self, it):
        self.it, self.p = it, []

    def next(self, I):
        return self.p.pop(0) if self.p else self.it.next(I)

    def peek(self, I):
        if not self.p:
            self.p.append(self.it.next(I))
        return self.p

    def next_back(self, I):
        x = self.it.next_back(I)
        if x is END and self.p and self.p[0] is not END:
            return self.p.pop()
        return x


@model('core::iter::adapters::peekable::Peekable::<I>::peek')
def _(I, a, ref, rt):
    p = I.deref(a[0]).peek(I)
    return none() if p[0] is END else some(Ref(p, 0))


@model(IT + 'flat_map', IT + 'flatten')
def _(I, a, ref, rt):
    it = it_of(I, a[0])
    f = a[1] if len(a) > 1 else None
    cur = [None]

    def step(I):
        while True:
            if cur[0] is not None:
                v = cur[0].next(I)
                if v is not END:
                    return v
                cur[0] = None
            x = it.next(I)
            if x is END:
                return END
            if f is not None:
                x = I.call_value(f, [x])
            x = var(I, x) if isinstance(x, Sym) and x.ty and I.T[x.ty[1]].get('p') in (OPTION, RESULT) else x
            cur[0] = to_iter(I, x)
    return FnIt(step)


@model(IT + 'scan')
def _(I, a, ref, rt):
    it, st, f = it_of(I, a[0]), [a[1]], a[2]

    def step(I):
        x = it.next(I)
        if x is END:
            return END
        r = var(I, I.call_value(f, [Ref(st, 0), x]))
        return r.f[0] if good(r) else END
    return FnIt(step)


def quiet(I):
    return len(I.path.trace), len(I.path.events)


@model(IT + 'any', IT + 'all')
def _(I, a, ref, rt):
    it, f = it_of(I, a[0]), a[1]
    want = ref['name'].endswith('any')
    if isinstance(it, SymCharsIt):
        return S('somechar' if want else 'allchars', it.s, f.key if isinstance(f, Clo) else repr(f))
    acc = []
    while True:
        q = quiet(I)
        x = it.next(I)
        if acc and quiet(I) != q:
            pass
        if x is END:
            break
        r = I.call_value(f, [x])
        if isinstance(r, Sym):
            k = I.path.known(r)
            r = r if k is None else k
        if not want:
            r = negate(r)
        if r is True:
            if not acc:
                return want
            acc.append(True)
            break
        if r is False:
            continue
        acc.append(r)
        if quiet(I) != q:      # the closure branched or acted: decide now, in evaluation order
            t = or_terms(acc)
            if I.path.decide(t):
                return want
            acc = []
    t = or_terms(acc)
    return t if want else negate(t)


@model(IT + 'find', IT + 'position', IT + 'rposition', 'core::iter::traits::double_ended::DoubleEndedIterator::rfind')
def _(I, a, ref, rt):
    it, f = it_of(I, a[0]), a[1]
    n = 0
    k = ref['name'].split('::')[-1]
    g = it.next_back if k.startswith('r') else it.next
    while True:
        x = g(I)
        if x is END:
            return none()
        if I.path.decide(I.call_value(f, [Ref([x])] if k in ('find', 'rfind') else [x])):
            return some(x if k in ('find', 'rfind') else n)
        n += 1


@model(IT + 'find_map')
def _(I, a, ref, rt):
    it, f = it_of(I, a[0]), a[1]
    while True:
        x = it.next(I)
        if x is END:
            return none()
        r = var(I, I.call_value(f, [x]))
        if good(r):
            return r


@model(IT + 'fold')
def _(I, a, ref, rt):
    it, acc, f = it_of(I, a[0]), a[1], a[2]
    while True:
        x = it.next(I)
        if x is END:
            return acc
        acc = I.call_value(f, [acc, x])


@model('core::iter::traits::double_ended::DoubleEndedIterator::rfold')
def _(I, a, ref, rt):
    it, acc, f = it_of(I, a[0]), a[1], a[2]
    for x in it.drain(I)[::-1]:
        acc = I.call_value(f, [acc, x])
    return acc


@model(IT + 'reduce')
def _(I, a, ref, rt):
    it, f = it_of(I, a[0]), a[1]
    acc = it.next(I)
    if acc is END:
        return none()
    while True:
        x = it.next(I)
        if x is END:
            return some(acc)
        acc = I.call_value(f, [acc, x])


@model(IT + 'try_fold')
def _(I, a, ref, rt):
    it, acc, f = it_of(I, a[0]), a[1], a[2]
    last = None
    while True:
        x = it.next(I)
        if x is END:
            t = rttype(I, rt)
            return some(acc) if t.get('p') == OPTION else (Adt(FLOW, 0, [acc]) if t.get('p') == FLOW else ok(acc))
        r = var(I, I.call_value(f, [acc, x]))
        if r.p == FLOW:
            if r.v == 1:
                return r
        elif not good(r):
            return r
        acc = r.f[0]


@model(IT + 'for_each')
def _(I, a, ref, rt):
    it, f = it_of(I, a[0]), a[1]
    while True:
        x = it.next(I)
        if x is END:
            return UNIT
        I.call_value(f, [x])


@model(IT + 'try_for_each')
def _(I, a, ref, rt):
    it, f = it_of(I, a[0]), a[1]
    while True:
        x = it.next(I)
        if x is END:
            t = rttype(I, rt)
            return some(UNIT) if t.get('p') == OPTION else (Adt(FLOW, 0, [UNIT]) if t.get('p') == FLOW else ok(UNIT))
        r = var(I, I.call_value(f, [x]))
        if r.p == FLOW:
            if r.v == 1:
                return r
        elif not good(r):
            return r


@model(IT + 'count')
def _(I, a, ref, rt):
    it = it_of(I, a[0])
    if isinstance(it, SymCountIt):
        return it.count(I)
    return len(it.drain(I))


@model(IT + 'last')
def _(I, a, ref, rt):
    it = it_of(I, a[0])
    x = it.drain(I)
    return some(x[-1]) if x else none()


@model(IT + 'nth')
def _(I, a, ref, rt):
    it = it_of(I, a[0])
    for _ in range(a[1]):
        if it.next(I) is END:
            return none()
    x = it.next(I)
    return none() if x is END else some(x)


@model(IT + 'sum')
def _(I, a, ref, rt):
    r = 0
    for x in it_of(I, a[0]).drain(I):
        r = add(r, I.deref(x))
    return r


@model(IT + 'max', IT + 'min')
def _(I, a, ref, rt):
    xs = it_of(I, a[0]).drain(I)
    if not xs:
        return none()
    b = xs[0]
    for x in xs[1:]:
        c = cmp_values(I, x, b)
        if (c >= 0 if ref['name'].endswith('max') else c < 0):
            b = x
    return some(b)


@model(IT + 'partition')
def _(I, a, ref, rt):
    y, n = [], []
    it, f = it_of(I, a[0]), a[1]
    while True:
        x = it.next(I)
        if x is END:
            t = rttype(I, rt)
            el = [collect_into(I, I.T[t['a'][i]], v) for i, v in enumerate((y, n))]
            return Tup(el)
        (y if I.path.decide(I.call_value(f, [Ref([x])])) else n).append(x)


@model(IT + 'unzip')
def _(I, a, ref, rt):
    xs = it_of(I, a[0]).drain(I)
    t = rttype(I, rt)
    return Tup([collect_into(I, I.T[t['a'][i]], [x.f[i] for x in xs]) for i in (0, 1)])


@model(IT + 'eq')
def _(I, a, ref, rt):
    x, y = it_of(I, a[0]).drain(I), it_of(I, a[1]).drain(I)
    return len(x) == len(y) and and_terms([eq_term(I, p, q) for p, q in zip(x, y)])


@model(IT + 'size_hint')
def _(I, a, ref, rt):
    return Tup([0, none()])


@model('core::iter::traits::exact_size::ExactSizeIterator::len')
def _(I, a, ref, rt):
    it = I.deref(a[0])
    if isinstance(it, ListIt):
        return it.j - it.i
    it._mat(I)
    return len(it._buf)


@model('core::iter::sources::repeat::repeat')
def _(I, a, ref, rt):
    return RepeatIt(a[0])


@model('core::iter::sources::repeat_n::repeat_n')
def _(I, a, ref, rt):
    return ListIt([clone(I, a[0]) for _ in range(a[1])])


@model('core::iter::sources::repeat_with::repeat_with')
def _(I, a, ref, rt):
    return RepeatIt(None, a[0])


@model('core::iter::sources::once::once')
def _(I, a, ref, rt):
    return ListIt([a[0]])


@model('core::iter::sources::empty::empty')
def _(I, a, ref, rt):
    return ListIt([])


@model('core::iter::sources::from_fn::from_fn')
def _(I, a, ref, rt):
    f = a[0]

    def step(I):
        r = var(I, I.call_value(f, []))
        return r.f[0] if good(r) else END
    return FnIt(step)


@model('core::iter::sources::successors::successors')
def _(I, a, ref, rt):
    cur, f = [var(I, a[0])], a[1]

    def step(I):
        c = cur[0]
        if not good(c):
            return END
        v = c.f[0]
        cur[0] = var(I, I.call_value(f, [Ref([v])]))
        return v
    return FnIt(step)


@model('core::ops::range::RangeInclusive::<Idx>::new')
def _(I, a, ref, rt):
    return Adt('core::ops::range::RangeInclusive', 0, [a[0], a[1], False])


def collect_into(I, t, xs):
    """FromIterator for the target type"""
    p = t.get('p', '')
    if t['k'] == 'tuple' and not t.get('a'):
        return UNIT
    if p == RESULT or p == OPTION:
        raise Undecided('lazy collect')
    if p == 'alloc::vec::Vec' or p.endswith('VecDeque'):
        return Lst(list(xs))
    if p.endswith('boxed::Box') or p.endswith('rc::Rc'):
        return Box_(Lst(list(xs)))
    if p == 'alloc::string::String':
        return cat(*[chr(x) if isinstance(x, int) else sv(I, x) for x in map(I.deref, xs)])
    if p.endswith('hash::set::HashSet') or p.endswith('btree::set::BTreeSet'):
        h = HMap(True, hasher_of(I, t))
        for x in xs:
            hset_insert(I, h, x)
        return sorted_map(I, h)
    if p.endswith('hash::map::HashMap') or p.endswith('btree::map::BTreeMap'):
        h = HMap(False, hasher_of(I, t))
        for x in xs:
            hmap_insert(I, h, x.f[0], x.f[1])
        return sorted_map(I, h)
    if p.endswith('TokenStream'):
        r = TS()
        for x in xs:
            x = I.deref(x)
            r.t.extend(x.t if isinstance(x, TS) else [('opaque', I.freeze(x))])
        return r
    if p.endswith('PathBuf'):
        return S('pathjoin', *[sv(I, x) for x in xs])
    raise Undecided('collect into ' + t['s'])


def sorted_map(I, h):
    if h.hasher != 'ordered':
        return h
    idx = sorted(range(len(h.keys)), key=functools.cmp_to_key(lambda i, j: cmp_values(I, h.keys[i], h.keys[j])))
    h.keys = [h.keys[i] for i in idx]
    if not h.is_set:
        h.vals = [h.vals[i] for i in idx]
    return h


def collect(I, it, t):
    p = t.get('p', '')
    if p in (RESULT, OPTION):
        xs = []
        while True:
            x = it.next(I)
            if x is END:
                r = collect(I, ListIt(xs), I.T[t['a'][0]])
                return ok(r) if p == RESULT else some(r)
            x = var(I, x)
            if not good(x):
                return x
            xs.append(x.f[0])
    return collect_into(I, t, it.drain(I))


@model(IT + 'collect', 'core::iter::traits::collect::FromIterator::from_iter')
def _(I, a, ref, rt):
    t = rttype(I, rt)
    return collect(I, it_of(I, a[0]), t)


@model('itertools::Itertools::collect_vec', 'itertools::Itertools::try_collect')
def _(I, a, ref, rt):
    return collect(I, it_of(I, a[0]), rttype(I, rt))


@model('itertools::Itertools::unique', 'itertools::Itertools::unique_by', 'itertools::Itertools::dedup', 'itertools::Itertools::dedup_by')
def _(I, a, ref, rt):
    it = it_of(I, a[0])
    f = a[1] if len(a) > 1 else None
    seen = []
    adj = 'dedup' in ref['name']

    def step(I):
        while True:
            x = it.next(I)
            if x is END:
                return END
            k = x if f is None else I.call_value(f, [Ref([x])])
            if not I.path.decide(or_terms([eq_term(I, y, k) for y in seen])):
                if adj:
                    seen.clear()
                seen.append(clone(I, k) if not isinstance(k, Ref) else k)
                return x
    return FnIt(step)


@model('itertools::Itertools::sorted', 'itertools::Itertools::sorted_by', 'itertools::Itertools::sorted_by_key', 'itertools::Itertools::sorted_unstable')
def _(I, a, ref, rt):
    xs = it_of(I, a[0]).drain(I)
    return ListIt(sort(I, xs, ref['name'].split('::')[-1], a[1] if len(a) > 1 else None))


@model('itertools::Itertools::join')
def _(I, a, ref, rt):
    it = I.deref(a[0])
    return join(I, [display(I, x) for x in it_of(I, it).drain(I)], sv(I, a[1]))


def join(I, xs, sep):
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(sep)
        out.append(x)
    return cat(*out)


@model('alloc::slice::<impl [T]>::join', 'alloc::slice::<impl [T]>::concat')
def _(I, a, ref, rt):
    xs = list_of(I, a[0])
    t = rttype(I, rt)
    if t.get('p') == 'alloc::vec::Vec':
        if len(a) > 1:
            raise Undecided('join of slices')
        return Lst([clone(I, y) for x in xs for y in list_of(I, x)])
    return join(I, [sv(I, x) for x in xs], sv(I, a[1]) if len(a) > 1 else '')


# ---------------------------------------------------------------- Vec / slices
def vec(I, v):
    """the mutable Lst behind a &mut Vec"""
    r = v
    while isinstance(r, Ref) and isinstance(r.get(), Ref):
        r = r.get()
    x = r.get() if isinstance(r, Ref) else r
    if isinstance(x, Box_):
        x = x.f[0]
    if isinstance(x, Sym):
        l = Lst(list(I.as_list(x).items))
        if isinstance(r, Ref):
            r.set(l)
        return l
    if not isinstance(x, Lst):
        raise Undecided('Vec expected, got %r' % (x,))
    return x


V = 'alloc::vec::Vec::<T, A>::'
SL = 'core::slice::<impl [T]>::'


@model('alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity')
def _(I, a, ref, rt):
    return Lst([])


@model(V + 'push', 'alloc::collections::vec_deque::VecDeque::<T, A>::push_back')
def _(I, a, ref, rt):
    vec(I, a[0]).items.append(a[1])
    return UNIT


@model('alloc::collections::vec_deque::VecDeque::<T, A>::push_front')
def _(I, a, ref, rt):
    vec(I, a[0]).items.insert(0, a[1])
    return UNIT


@model(V + 'pop', 'alloc::collections::vec_deque::VecDeque::<T, A>::pop_back', 'alloc::collections::vec_deque::VecDeque::<T, A>::pop_front')
def _(I, a, ref, rt):
    l = vec(I, a[0]).items
    return some(l.pop(0 if ref['name'].endswith('front') else -1)) if l else none()


@model('alloc::vec::from_elem')
def _(I, a, ref, rt):
    return Lst([clone(I, a[0]) for _ in range(a[1])])


@model(V + 'len', SL + 'len', 'std::collections::hash::map::HashMap::<K, V, S, A>::len', 'std::collections::hash::set::HashSet::<T, S, A>::len')
def _(I, a, ref, rt):
    return len(list_of(I, a[0]))


@model(V + 'is_empty', SL + 'is_empty', 'std::collections::hash::map::HashMap::<K, V, S, A>::is_empty', 'std::collections::hash::set::HashSet::<T, S, A>::is_empty')
def _(I, a, ref, rt):
    return len(list_of(I, a[0])) == 0


@model(V + 'as_slice', V + 'as_mut_slice', V + 'into_boxed_slice', SL + 'as_ref')
def _(I, a, ref, rt):
    v = I.deref(a[0])
    if isinstance(v, Sym):
        v = I.as_list(v)
    return Slice(v.items) if isinstance(v, Lst) else v


@model(V + 'reserve', V + 'shrink_to_fit', 'alloc::string::String::reserve', 'std::collections::hash::map::HashMap::<K, V, S, A>::reserve')
def _(I, a, ref, rt):
    return UNIT


@model(V + 'clear')
def _(I, a, ref, rt):
    vec(I, a[0]).items.clear()
    return UNIT


@model(V + 'truncate')
def _(I, a, ref, rt):
    del vec(I, a[0]).items[a[1]:]
    return UNIT


@model(V + 'remove', V + 'swap_remove')
def _(I, a, ref, rt):
    l = vec(I, a[0]).items
    i = a[1]
    if not isinstance(i, int):
        raise Undecided('symbolic index')
    if i >= len(l):
        I.panic('index', ref['name'].split('::')[-1] + '(%d) on a Vec of length %d' % (i, len(l)), cause='%d of %d' % (i, len(l)))
    if ref['name'].endswith('swap_remove'):
        x = l[i]
        y = l.pop()
        if i < len(l):
            l[i] = y
        return x
    return l.pop(i)


@model(V + 'insert')
def _(I, a, ref, rt):
    l = vec(I, a[0]).items
    if a[1] > len(l):
        I.panic('index', 'insert out of range')
    l.insert(a[1], a[2])
    return UNIT


@model(V + 'retain', V + 'retain_mut')
def _(I, a, ref, rt):
    v = vec(I, a[0])
    out = []
    for i in range(len(v.items)):
        if I.path.decide(I.call_value(a[1], [Ref(v.items, i)])):
            out.append(v.items[i])
    v.items[:] = out
    return UNIT


def bounds(I, r, n):
    """(lo,hi) of a range value over a sequence of length n, panicking like core::slice::index"""
    r = I.deref(r)
    k = r.p.split('::')[-1] if isinstance(r, Adt) else ''
    if k == 'Range':
        lo, hi = r.f[0], r.f[1]
    elif k == 'RangeInclusive':
        lo, hi = r.f[0], add(r.f[1], 1)
    elif k == 'RangeFrom':
        lo, hi = r.f[0], n
    elif k == 'RangeTo':
        lo, hi = 0, r.f[0]
    elif k == 'RangeToInclusive':
        lo, hi = 0, add(r.f[0], 1)
    elif k == 'RangeFull':
        lo, hi = 0, n
    else:
        raise Undecided('range %r' % (r,))
    if not isinstance(lo, int) or not isinstance(hi, int):
        for t in (I.cmp('le', lo, hi), I.cmp('le', hi, n)):
            if not I.path.decide(t):
                I.panic('index', 'slice index out of range', cause=repr((lo, hi, n)))
        return lo, hi
    if lo > hi or hi > n:
        I.panic('index', 'range %s..%s out of range for length %s' % (lo, hi, n), cause=repr((lo, hi, n)))
    return lo, hi


@model(V + 'drain')
def _(I, a, ref, rt):
    l = vec(I, a[0]).items
    lo, hi = bounds(I, a[1], len(l))
    if not (isinstance(lo, int) and isinstance(hi, int)):
        raise Undecided('drain(symbolic)')
    xs = l[lo:hi]
    del l[lo:hi]
    return ListIt(xs)


@model(V + 'split_off')
def _(I, a, ref, rt):
    l = vec(I, a[0]).items
    if a[1] > len(l):
        I.panic('index', 'split_off out of range')
    xs = l[a[1]:]
    del l[a[1]:]
    return Lst(xs)


@model(V + 'append')
def _(I, a, ref, rt):
    x, y = vec(I, a[0]), vec(I, a[1])
    x.items.extend(y.items)
    y.items.clear()
    return UNIT


@model(V + 'extend_from_slice')
def _(I, a, ref, rt):
    vec(I, a[0]).items.extend(clone(I, x) for x in list_of(I, a[1]))
    return UNIT


@model(V + 'dedup', V + 'dedup_by_key', V + 'dedup_by')
def _(I, a, ref, rt):
    v = vec(I, a[0])
    out = []
    k = ref['name'].split('::')[-1]
    for x in v.items:
        if out:
            if k == 'dedup':
                c = eq_term(I, out[-1], x)
            elif k == 'dedup_by_key':
                c = eq_term(I, I.call_value(a[1], [Ref([out[-1]])]), I.call_value(a[1], [Ref([x])]))
            else:
                c = I.call_value(a[1], [Ref([x]), Ref([out[-1]])])
            if I.path.decide(c):
                continue
        out.append(x)
    v.items[:] = out
    return UNIT


def sort(I, xs, kind, f):
    def c(x, y):
        if 'by_key' in kind or 'cached_key' in kind:
            return cmp_values(I, I.call_value(f, [Ref([x])]), I.call_value(f, [Ref([y])]))
        if '_by' in kind:
            return I.call_value(f, [Ref([x]), Ref([y])]).v - 1
        return cmp_values(I, x, y)
    return sorted(xs, key=functools.cmp_to_key(c))


@model('alloc::slice::<impl [T]>::sort_by', 'alloc::slice::<impl [T]>::sort', 'alloc::slice::<impl [T]>::sort_by_key', SL + 'sort_unstable', SL + 'sort_unstable_by',
       SL + 'sort_unstable_by_key', 'alloc::slice::<impl [T]>::sort_by_cached_key')
def _(I, a, ref, rt):
    v = I.deref(a[0])
    items, lo, hi = I.seq(v)
    items[lo:hi] = sort(I, items[lo:hi], ref['name'].split('::')[-1], a[1] if len(a) > 1 else None)
    return UNIT


@model(SL + 'reverse')
def _(I, a, ref, rt):
    items, lo, hi = I.seq(a[0])
    items[lo:hi] = items[lo:hi][::-1]
    return UNIT


@model(SL + 'swap')
def _(I, a, ref, rt):
    items, lo, hi = I.seq(a[0])
    i, j = a[1], a[2]
    if max(i, j) >= hi - lo:
        I.panic('index', 'swap out of range')
    items[lo + i], items[lo + j] = items[lo + j], items[lo + i]
    return UNIT


@model(SL + 'contains')
def _(I, a, ref, rt):
    return or_terms([eq_term(I, x, a[1]) for x in list_of(I, a[0])])


@model(SL + 'first', SL + 'last', SL + 'first_mut', SL + 'last_mut')
def _(I, a, ref, rt):
    items, lo, hi = I.seq(a[0])
    if lo == hi:
        return none()
    return some(Ref(items, lo if '::first' in ref['name'] else hi - 1))


@model(SL + 'get', SL + 'get_mut')
def _(I, a, ref, rt):
    items, lo, hi = I.seq(a[0])
    i = a[1]
    if isinstance(i, int):
        return some(Ref(items, lo + i)) if i < hi - lo else none()
    if isinstance(i, Adt):
        try:
            x, y = bounds(I, i, hi - lo)
        except Panic:
            return none()
        return some(Slice(items, lo + x, lo + y))
    raise Undecided('get(symbolic)')


@model(SL + 'split_first', SL + 'split_last')
def _(I, a, ref, rt):
    items, lo, hi = I.seq(a[0])
    if lo == hi:
        return none()
    if ref['name'].endswith('first'):
        return some(Tup([Ref(items, lo), Slice(items, lo + 1, hi)]))
    return some(Tup([Ref(items, hi - 1), Slice(items, lo, hi - 1)]))


@model(SL + 'split_at')
def _(I, a, ref, rt):
    items, lo, hi = I.seq(a[0])
    if a[1] > hi - lo:
        I.panic('index', 'split_at out of range')
    return Tup([Slice(items, lo, lo + a[1]), Slice(items, lo + a[1], hi)])


@model(SL + 'starts_with', SL + 'ends_with')
def _(I, a, ref, rt):
    x, y = list_of(I, a[0]), list_of(I, a[1])
    if len(y) > len(x):
        return False
    if ref['name'].endswith('starts_with'):
        return and_terms([eq_term(I, p, q) for p, q in zip(x, y)])
    return and_terms([eq_term(I, p, q) for p, q in zip(x[len(x) - len(y):], y)])


@model(SL + 'strip_prefix')
def _(I, a, ref, rt):
    items, lo, hi = I.seq(a[0])
    y = list_of(I, a[1])
    if len(y) > hi - lo or not I.path.decide(and_terms([eq_term(I, items[lo + i], y[i]) for i in range(len(y))])):
        return none()
    return some(Slice(items, lo + len(y), hi))


@model(SL + 'windows', SL + 'chunks')
def _(I, a, ref, rt):
    items, lo, hi = I.seq(a[0])
    n = a[1]
    if ref['name'].endswith('windows'):
        return ListIt([Slice(items, i, i + n) for i in range(lo, hi - n + 1)])
    return ListIt([Slice(items, i, min(i + n, hi)) for i in range(lo, hi, n)])


@model(SL + 'chunk_by')
def _(I, a, ref, rt):
    items, lo, hi = I.seq(a[0])
    out, st = [], lo
    for i in range(lo + 1, hi + 1):
        if i == hi or not I.path.decide(I.call_value(a[1], [Ref(items, i - 1), Ref(items, i)])):
            out.append(Slice(items, st, i))
            st = i
    return ListIt(out if hi > lo else [])


@model('core::array::<impl [T; N]>::map')
def _(I, a, ref, rt):
    return Lst([I.call_value(a[1], [x]) for x in a[0].items])


@model('core::slice::<impl [T]>::concat')
def _(I, a, ref, rt):
    return Lst([clone(I, y) for x in list_of(I, a[0]) for y in list_of(I, x)])


def str_bound(I, s, t):
    """t is known to be a character boundary within s"""
    if isinstance(t, int):
        return t == 0 or any(x.op == 'prefix' and v and isinstance(x.args[1], str) and len(x.args[1].encode()) == t for x, v in I.path.bysym.get(s, ()))
    if not isinstance(t, Sym):
        return False
    if t is S('slen', s) or t.op == 'find' and t.args[0] is s:
        return True
    if t.op != 'add' or not isinstance(t.args[1], int):
        return False
    b, n = t.args
    if b is S('slen', s):
        return any(x.op == 'suffix' and v and isinstance(x.args[1], str) and len(x.args[1].encode()) == -n for x, v in I.path.bysym.get(s, ()))
    return isinstance(b, Sym) and b.op == 'find' and b.args[0] is s and isinstance(b.args[1], str) and len(b.args[1].encode()) == n


def str_slice_ok(I, s, k, f):
    """`&s[range]` cannot panic"""
    lo, hi = {'RangeFrom': (f[0], None), 'RangeTo': (0, f[0]), 'Range': (f[0], f[-1]), 'RangeFull': (0, None)}.get(k, (None, None)) if f or k == 'RangeFull' else (None, None)
    if lo is None or not str_bound(I, s, lo) or hi is not None and not str_bound(I, s, hi):
        return False
    return hi is None or lo == 0 or hi is S('slen', s) or lo is hi or I.path.known(I.cmp('le', lo, hi)) is True


@model('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def _(I, a, ref, rt):
    base, i = a
    d = I.deref(base)
    if isinstance(d, HMap):
        r = hmap_find(I, d, i)
        if r is None:
            I.panic('index', 'missing key')
        return Ref(d.vals, r)
    if isinstance(d, str) or (isinstance(d, Sym) and not (d.ty and I.T[d.ty[1]].get('p') == 'alloc::vec::Vec')) and isinstance(i, Adt):
        if isinstance(d, str):
            b = d.encode()
            lo, hi = bounds(I, i, len(b))
            if isinstance(lo, int) and isinstance(hi, int):
                return b[lo:hi].decode()
            return S('substr', d, lo, hi)
        r = I.deref(i)
        f = [x for x in r.f if not isinstance(x, bool)]
        k = r.p.split('::')[-1]
        if k == 'RangeFrom' and isinstance(f[0], int):
            # `&s[n..]` after a prefix of n bytes is known
            for atom, v in I.path.bysym.get(d, ()):
                if atom.op == 'prefix' and v and isinstance(atom.args[1], str) and len(atom.args[1].encode()) == f[0]:
                    return S('sp', d, atom.args[1])
        if not str_slice_ok(I, d, k, f) and not I.path.decide(S('in_range', d, *f)):
            I.panic('index', 'string slice out of range or not on a char boundary', cause=repr((d, f)))
        return S('substr', d, k, *f)
    items, lo, hi = I.seq(d if not isinstance(base, Slice) else base)
    if isinstance(i, bool) or isinstance(i, int):
        if i >= hi - lo:
            I.panic('index', 'index %d out of bounds for length %d' % (i, hi - lo), cause='%s of %s' % (i, hi - lo))
        return Ref(items, lo + i)
    if isinstance(i, Sym):
        raise Undecided('symbolic index')
    x, y = bounds(I, i, hi - lo)
    if not (isinstance(x, int) and isinstance(y, int)):
        raise Undecided('symbolic range')
    return Slice(items, lo + x, lo + y)


@model('core::iter::traits::collect::Extend::extend')
def _(I, a, ref, rt):
    d = I.deref(a[0])
    if isinstance(d, TS):
        x = a[1]
        if isinstance(x, Adt) and x.p in (OPTION, RESULT):
            if x.p == RESULT and not good(x):
                I.event('dropped_error', 'extend', (x.f[0],))
            x = x.f[0] if good(x) else TS()
        x = I.deref(x)
        if isinstance(x, TS):
            d.t.extend(x.t)
        elif isinstance(x, Sym):
            t = I.T[x.ty[1]] if x.ty else None
            if t and t.get('p') in (RESULT, OPTION):
                x = I.variant_value(x)
                if good(x):
                    d.t.append(('opaque', I.freeze(x.f[0])))
                elif x.p == RESULT:
                    I.event('dropped_error', 'extend', (x.f[0],))
            else:
                d.t.append(('opaque', x))
        else:
            for y in to_iter(I, x).drain(I):
                d.t.extend(I.deref(y).t)
        return UNIT
    if isinstance(d, HMap):
        it = to_iter(I, a[1])
        while True:
            x = it.next(I)
            if x is END:
                return UNIT
            if d.is_set:
                hset_insert(I, d, x)
            else:
                hmap_insert(I, d, x.f[0], x.f[1])
    if isinstance(d, (str, Sym)) and not (isinstance(d, Sym) and d.ty and I.T[d.ty[1]].get('p') == 'alloc::vec::Vec'):
        for y in to_iter(I, a[1]).drain(I):
            smut(I, a[0], lambda s: cat(s, chr(y) if isinstance(y, int) else sv(I, y)))
        return UNIT
    v = vec(I, a[0])
    it = to_iter(I, a[1])
    t = tstr(I, ref['args'][-1]) if ref['args'] else ''
    while True:
        x = it.next(I)
        if x is END:
            return UNIT
        v.items.append(clone(I, x.get()) if isinstance(x, Ref) and elem_is_value(I, ref) else x)


def elem_is_value(I, ref):
    """Vec<T>: Extend<&T> copies; Vec<&T>: Extend<&T> stores the reference"""
    t = tinfo(I, ref['args'][0])
    if t.get('p') == 'alloc::vec::Vec' and isinstance(t['a'][0], int):
        a = tinfo(I, ref['args'][1]) if len(ref['args']) > 1 else None
        el = I.T[t['a'][0]]
        return el['k'] != 'ref'
    return False


# ---------------------------------------------------------------- hash containers
def hmap_find(I, h, k):
    if not h.keys:
        return None
    for i, x in enumerate(h.keys):
        if I.path.decide(eq_term(I, x, k)):
            return i
    return None


def hset_insert(I, h, x):
    r = I.path.decide(or_terms([eq_term(I, y, x) for y in h.keys]))
    if not r:
        h.keys.append(x)
    return not r


def hmap_insert(I, h, k, v):
    i = hmap_find(I, h, k)
    if i is not None:
        old = h.vals[i]
        h.vals[i] = v
        return some(old)
    h.keys.append(k)
    h.vals.append(v)
    return none()


HM = 'std::collections::hash::map::HashMap::<K, V, S, A>::'
HS = 'std::collections::hash::set::HashSet::<T, S, A>::'


def hm(I, v):
    d = I.deref(v)
    if isinstance(d, HMap):
        return d
    raise Undecided('hash container expected, got %r' % (d,))


@model('std::collections::hash::map::HashMap::<K, V>::new', 'std::collections::hash::set::HashSet::<T>::new', 'std::collections::hash::map::HashMap::<K, V>::with_capacity',
       'std::collections::hash::set::HashSet::<T>::with_capacity', 'alloc::collections::btree::map::BTreeMap::<K, V>::new', 'alloc::collections::btree::set::BTreeSet::<T>::new',
       'std::collections::hash::map::HashMap::<K, V, S>::with_capacity_and_hasher', 'std::collections::hash::set::HashSet::<T, S>::with_capacity_and_hasher',
       'std::collections::hash::map::HashMap::<K, V, S>::with_hasher', 'std::collections::hash::set::HashSet::<T, S>::with_hasher')
def _(I, a, ref, rt):
    t = rttype(I, rt)
    return HMap('Set' in ref['name'], hasher_of(I, t))


@model(HM + 'get', HM + 'get_mut')
def _(I, a, ref, rt):
    d = I.deref(a[0])
    if isinstance(d, Sym):
        ev = I.event('mapget', '', (d, a[1]))
        k = I.freeze(a[1])
        if I.path.decide(S('mapcontains', d, k)):
            return some(S('mapval', d, k))
        return none()
    h = hm(I, a[0])
    i = hmap_find(I, h, a[1])
    return none() if i is None else some(Ref(h.vals, i))


@model(HM + 'contains_key', HS + 'contains', 'alloc::collections::btree::set::BTreeSet::<T, A>::contains')
def _(I, a, ref, rt):
    d = I.deref(a[0])
    if isinstance(d, Sym):
        return S('mapcontains', d, I.freeze(a[1]))
    return or_terms([eq_term(I, x, a[1]) for x in d.keys])


@model(HM + 'insert', 'alloc::collections::btree::map::BTreeMap::<K, V, A>::insert')
def _(I, a, ref, rt):
    h = hm(I, a[0])
    r = hmap_insert(I, h, a[1], a[2])
    I.event('map_insert', '', (a[1], a[2]))
    sorted_map(I, h)
    return r


@model(HS + 'insert', 'alloc::collections::btree::set::BTreeSet::<T, A>::insert')
def _(I, a, ref, rt):
    h = hm(I, a[0])
    r = hset_insert(I, h, a[1])
    sorted_map(I, h)
    return r


@model(HM + 'remove', HS + 'remove', HS + 'take')
def _(I, a, ref, rt):
    h = hm(I, a[0])
    i = hmap_find(I, h, a[1])
    if h.is_set:
        if i is not None:
            k = h.keys.pop(i)
            return True if ref['name'].endswith('remove') else some(k)
        return False if ref['name'].endswith('remove') else none()
    if i is None:
        return none()
    h.keys.pop(i)
    return some(h.vals.pop(i))


@model(HM + 'keys', HM + 'values', HM + 'into_keys', HM + 'into_values', HM + 'drain', HS + 'drain', HM + 'values_mut')
def _(I, a, ref, rt):
    h = hm(I, a[0])
    note_hash_iter(I, h)
    k = ref['name'].split('::')[-1]
    if k == 'keys':
        return ListIt([Ref(h.keys, i) for i in range(len(h.keys))])
    if k in ('values', 'values_mut'):
        return ListIt([Ref(h.vals, i) for i in range(len(h.vals))])
    if k == 'into_keys':
        return ListIt(list(h.keys))
    if k == 'into_values':
        return ListIt(list(h.vals))
    r = list(h.keys) if h.is_set else [Tup([x, y]) for x, y in zip(h.keys, h.vals)]
    h.keys, h.vals = [], []
    return ListIt(r)


@model(HS + 'is_subset', HS + 'is_superset', HS + 'is_disjoint')
def _(I, a, ref, rt):
    x, y = hm(I, a[0]), hm(I, a[1])
    if ref['name'].endswith('superset'):
        x, y = y, x
    if ref['name'].endswith('disjoint'):
        return negate(or_terms([eq_term(I, p, q) for p in x.keys for q in y.keys]))
    return and_terms([or_terms([eq_term(I, p, q) for q in y.keys]) for p in x.keys])


@model(HS + 'union', HS + 'intersection', HS + 'difference')
def _(I, a, ref, rt):
    x, y = hm(I, a[0]), hm(I, a[1])
    note_hash_iter(I, x)
    k = ref['name'].split('::')[-1]
    out = []
    for i in range(len(x.keys)):
        inn = I.path.decide(or_terms([eq_term(I, x.keys[i], q) for q in y.keys])) if k != 'union' else True
        if inn == (k != 'difference'):
            out.append(Ref(x.keys, i))
    if k == 'union':
        for i in range(len(y.keys)):
            if not I.path.decide(or_terms([eq_term(I, y.keys[i], q) for q in x.keys])):
                out.append(Ref(y.keys, i))
    return ListIt(out)


@model(HM + 'entry', 'alloc::collections::btree::map::BTreeMap::<K, V, A>::entry')
def _(I, a, ref, rt):
    h = hm(I, a[0])
    return Adt('Entry', 0, [h, a[1], hmap_find(I, h, a[1])])


@model("std::collections::hash::map::Entry::<'a, K, V, A>::or_default", "std::collections::hash::map::Entry::<'a, K, V, A>::or_insert",
       "std::collections::hash::map::Entry::<'a, K, V, A>::or_insert_with", "alloc::collections::btree::map::entry::Entry::<'a, K, V, A>::or_default",
       "alloc::collections::btree::map::entry::Entry::<'a, K, V, A>::or_insert", "alloc::collections::btree::map::entry::Entry::<'a, K, V, A>::or_insert_with",
       "std::collections::hash::map::Entry::<'a, K, V>::or_default", "std::collections::hash::map::Entry::<'a, K, V>::or_insert", "std::collections::hash::map::Entry::<'a, K, V>::or_insert_with")
def _(I, a, ref, rt):
    h, k, i = a[0].f
    if i is None:
        n = ref['name'].split('::')[-1]
        t = rttype(I, rt)
        v = default_of(I, I.T[t['t']]) if n == 'or_default' else (a[1] if n == 'or_insert' else I.call_value(a[1], []))
        h.keys.append(k)
        h.vals.append(v)
        i = len(h.keys) - 1
    return Ref(h.vals, i)


@model('core::hash::Hash::hash')
def _(I, a, ref, rt):
    return UNIT


# ---------------------------------------------------------------- integers
INT = ['usize', 'isize', 'u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64']


def _mk_int(ty):
    p = 'core::num::<impl %s>::' % ty
    uns = ty.startswith('u')

    def arith(op):
        def f(I, a, ref, rt):
            x, y = I.deref(a[0]), I.deref(a[1])
            k = ref['name'].split('::')[-1]
            v = add(x, y) if op == 'add' else sub(x, y) if op == 'sub' else (x * y if isinstance(x, int) and isinstance(y, int) else S('mul', x, y))
            neg = False
            if op == 'sub' and uns:
                t = I.cmp('lt', x, y)
                neg = I.path.decide(t)
            if k.startswith('checked'):
                return none() if neg else some(v)
            if k.startswith('saturating'):
                return 0 if neg else v
            if k.startswith('overflowing'):
                return Tup([v, neg])
            return v if not neg else S('wrapped', I.freeze(v))
        return f
    for op in ('add', 'sub', 'mul'):
        for pre in ('checked_', 'saturating_', 'wrapping_', 'overflowing_'):
            M[p + pre + op] = arith(op)
    M[p + 'abs_diff'] = lambda I, a, ref, rt: abs(a[0] - a[1]) if isinstance(a[0], int) and isinstance(a[1], int) else S('absdiff', I.freeze(a[0]), I.freeze(a[1]))

    def p_is(f):
        def g(I, a, ref, rt):
            x = I.deref(a[0])
            return f(I, x)
        return g
    M[p + 'is_positive'] = p_is(lambda I, x: I.cmp('lt', 0, x))
    M[p + 'is_negative'] = p_is(lambda I, x: I.cmp('lt', x, 0))


for _t in INT:
    _mk_int(_t)


# ---------------------------------------------------------------- operators on references / user values
@model('core::ops::arith::Add::add', 'core::ops::arith::Sub::sub', 'core::ops::arith::AddAssign::add_assign', 'core::ops::arith::SubAssign::sub_assign')
def _(I, a, ref, rt):
    k = ref['item']
    x, y = I.deref(a[0]), I.deref(a[1])
    if isinstance(x, int) and isinstance(y, int):
        v = x + y if 'add' in k else x - y
    elif isinstance(x, (str, Sym)) and 'add' in k and not (isinstance(x, Sym) and x.op in ('count', 'len', 'add')):
        v = cat(x, sv(I, y))
    else:
        v = add(x, y) if 'add' in k else sub(x, y)
    if k.endswith('assign'):
        a[0].set(v)
        return UNIT
    return v


@model('core::ops::bit::Not::not')
def _(I, a, ref, rt):
    return negate(I.deref(a[0]))


@model('core::ops::bit::BitOr::bitor')
def _(I, a, ref, rt):
    x, y = a
    if isinstance(x, (bool, Sym)) and isinstance(y, (bool, Sym)) and not (isinstance(x, Sym) and x.op == 'zst'):
        return or_terms([x, y])
    return y


# ---------------------------------------------------------------- typed_builder
@model('typed_builder::Optional::into_value')
def _(I, a, ref, rt):
    v, f = a
    if isinstance(v, Tup):
        return v.f[0] if v.f else I.call_value(f, [])
    raise Undecided('builder field')


# ---------------------------------------------------------------- files, processes, environment
@model('std::fs::write')
def _(I, a, ref, rt):
    ev = I.event('fs_write', '', (display(I, a[0]), bytes_str(I, a[1])))
    r = I.outcome(ev, UNIT)
    return r if good(r) else err(S('ioerr', 'write'))


def bytes_str(I, v):
    v = I.deref(v)
    if isinstance(v, Slice):
        try:
            return bytes(v.list()).decode()
        except Exception:
            return I.freeze(v)
    if isinstance(v, Sym) and v.op == 'bytes':
        return v.args[0]
    if isinstance(v, Sym):
        return v
    return sv(I, v)


@model('std::fs::create_dir_all', 'std::fs::create_dir')
def _(I, a, ref, rt):
    ev = I.event('create_dir', ref['name'].split('::')[-1], (display(I, a[0]),))
    r = I.outcome(ev, UNIT)
    return r if good(r) else err(S('ioerr', 'mkdir'))


@model('std::io::stdio::stdout', 'std::io::stdio::stderr')
def _(I, a, ref, rt):
    return S(ref['name'].split('::')[-1])


M['std::io::stdio::Stdout::lock'] = M['std::io::stdio::Stderr::lock'] = lambda I, a, ref, rt: I.deref(a[0])


@model('std::io::Write::write_all', 'core::io::write::Write::write_all', 'std::io::Write::write_fmt', 'core::io::write::Write::write_fmt', 'std::io::Write::write', 'core::io::write::Write::write')
def _(I, a, ref, rt):
    d = I.deref(a[0])
    txt = a[1].f[0] if isinstance(a[1], Adt) else bytes_str(I, a[1])
    ev = I.event('stdout' if d is S('stdout') else 'write', repr(d), (txt,), extra=ref['item'])
    r = I.outcome(ev, UNIT)
    return r if good(r) else err(S('ioerr', 'stdout'))


@model('std::io::Write::flush', 'core::io::write::Write::flush')
def _(I, a, ref, rt):
    return ok(UNIT)


# ---------------------------------------------------------------- pyo3
PY = S('py')


def pname(I, v):
    """a Python name passed as &str / String / &Bound<PyString> / Ident"""
    v = I.deref(v)
    if isinstance(v, Sym) and v.op == 'pystr':
        return v.args[0]
    if isinstance(v, (str, Sym)):
        return v
    if isinstance(v, Adt) and v.p.endswith('Interned'):
        return v.f[0]
    if isinstance(v, Adt) and len(v.f) == 1:
        return pname(I, v.f[0])
    raise Undecided('python name %r' % (v,))


def pobj(I, v):
    v = I.deref(v)
    if isinstance(v, Sym):
        return v
    return I.freeze(v)


@model('pyo3::gil::prepare_freethreaded_python')
def _(I, a, ref, rt):
    I.event('init_python', '', ())
    return UNIT


@model("pyo3::marker::Python::<'_>::with_gil")
def _(I, a, ref, rt):
    I.event('with_gil', '', ())
    r = I.call_value(a[0], [PY])
    I.event('release_gil', '', ())
    return r


@model("pyo3::marker::Python::<'py>::import_bound", "pyo3::types::module::PyModule::import_bound", "pyo3::marker::Python::<'py>::import")
def _(I, a, ref, rt):
    n = pname(I, a[1])
    ev = I.event('import', '', (n,))
    return memo_outcome(I, ev, ('import', n), lambda: S('pymodule', n))


def memo_outcome(I, ev, key, mk):
    """the same question asked of the same object gets the same answer on one path"""
    k = ('pyres',) + key
    e = S('pyerr', ev.kind, *[x for x in key if isinstance(x, (str, Sym))])
    if k in I.path.memo and getattr(I.policy, 'stable_python', True):
        ev.res, ev.err = I.path.memo[k], e
        return ok(mk()) if ev.res == 'ok' else err(e)
    r = I.outcome(ev, mk)
    I.path.memo[k], ev.err = ev.res, e
    if ev.res != 'ok':
        return err(e)
    return r


@model('pyo3::types::any::PyAnyMethods::getattr', 'pyo3::types::any::PyAny::getattr')
def _(I, a, ref, rt):
    o, n = pobj(I, a[0]), pname(I, a[1])
    ev = I.event('getattr', '', (o, n))
    if ('attrset', o, n) in I.path.memo:
        ev.res = 'ok'
        return ok(I.path.memo[('attrset', o, n)])
    return memo_outcome(I, ev, ('getattr', o, n), lambda: S('attr', o, n))


@model('pyo3::types::any::PyAnyMethods::hasattr')
def _(I, a, ref, rt):
    o, n = pobj(I, a[0]), pname(I, a[1])
    ev = I.event('hasattr', '', (o, n))
    return memo_outcome(I, ev, ('hasattr', o, n), lambda: S('hasattr', o, n))


@model('pyo3::types::any::PyAnyMethods::setattr')
def _(I, a, ref, rt):
    o, n, v = pobj(I, a[0]), pname(I, a[1]), pobj(I, a[2])
    ev = I.event('setattr', '', (o, n, v))
    r = I.outcome(ev, UNIT)
    if ev.res == 'ok':
        I.path.memo[('attrset', o, n)] = v
    return r


@model('pyo3::types::any::PyAnyMethods::get_item', 'pyo3::types::any::PyAny::get_item', 'pyo3::types::dict::PyDictMethods::get_item')
def _(I, a, ref, rt):
    o, n = pobj(I, a[0]), pobj(I, a[1])
    ev = I.event('getitem', '', (o, n))
    return memo_outcome(I, ev, ('getitem', o, n), lambda: S('item', o, n))


@model('pyo3::types::any::PyAnyMethods::call0', 'pyo3::types::any::PyAnyMethods::call1', 'pyo3::types::any::PyAnyMethods::call',
       'pyo3::types::any::PyAnyMethods::call_method0', 'pyo3::types::any::PyAnyMethods::call_method1', 'pyo3::types::any::PyAnyMethods::call_method')
def _(I, a, ref, rt):
    k = ref['item']
    o = pobj(I, a[0])
    rest = a[1:]
    n = None
    if k.startswith('call_method'):
        n = pname(I, rest[0])
        rest = rest[1:]
    args = tuple(I.freeze(x) for x in rest)
    if o is S('pymodule', 'builtins') and n == 'dir' and len(args) == 1:
        x = args[0]
        x = x.args[0] if isinstance(x, Sym) and x.op == 'tup' and len(x.args) == 1 else x
        ev = I.event('dir', 'call', (x,))
        return memo_outcome(I, ev, ('dir', x), lambda: S('dir', x))
    ev = I.event('pycall', k, (o, n) + args)
    return memo_outcome(I, ev, ('call', o, n) + args, lambda: S('ret', o, n, *args))


@model("pyo3::marker::Python::<'py>::eval_bound", "pyo3::marker::Python::<'py>::run_bound")
def _(I, a, ref, rt):
    ev = I.event('eval', '', (sv(I, a[1]), a[3] if len(a) > 3 else None))
    return memo_outcome(I, ev, ('eval',) + ev.args, lambda: S('evalres', *ev.args))


@model("pyo3::marker::Python::<'py>::get_type_bound")
def _(I, a, ref, rt):
    return S('pytype', short(tstr(I, ref['args'][-1])))


@model("pyo3::instance::Bound::<'py, T>::py", "pyo3::types::any::PyAnyMethods::py", "pyo3::instance::Bound::<'_, T>::py", "pyo3::marker::Python::<'py>::assume_gil_acquired",
       'pyo3::types::any::PyAny::py', "pyo3::instance::Borrowed::<'_, 'py, T>::py")
def _(I, a, ref, rt):
    return PY


for n in ("pyo3::instance::Bound::<'py, T>::as_any", "pyo3::instance::Bound::<'py, T>::into_any", "pyo3::instance::Bound::<'py, T>::to_owned", 'pyo3::conversion::ToPyObject::to_object',
          "pyo3::instance::Bound::<'py, T>::as_borrowed", "pyo3::instance::Bound::<'py, T>::unbind", "pyo3::instance::Py::<T>::bind", "pyo3::instance::Py::<T>::into_bound",
          "pyo3::instance::Py::<T>::clone_ref", "pyo3::instance::Bound::<'py, T>::into_py", "pyo3::instance::Bound::<'py, T>::into_gil_ref", "pyo3::instance::Bound::<'py, T>::as_gil_ref",
          "pyo3::instance::Bound::<'py, T>::as_unbound", "pyo3::instance::Bound::<'py, pyo3::types::any::PyAny>::clone"):
    M[n] = lambda I, a, ref, rt: pobj(I, a[0])


@model('pyo3::types::any::PyAnyMethods::dir')
def _(I, a, ref, rt):
    # contract: pyo3's dir() aborts with a panic if a custom __dir__ raises
    o = pobj(I, a[0])
    ev = I.event('dir', 'panics', (o,))
    r = memo_outcome(I, ev, ('dir', o), lambda: S('dir', o))
    if ev.res != 'ok':
        I.panic('library', 'PyAnyMethods::dir panics when __dir__ raises')
    return r.f[0]


@model('pyo3::types::any::PyAnyMethods::get_type')
def _(I, a, ref, rt):
    return S('typeof', pobj(I, a[0]))


@model('pyo3::types::any::PyAnyMethods::is_none')
def _(I, a, ref, rt):
    o = pobj(I, a[0])
    return S('isnone', o)


@model('pyo3::types::any::PyAnyMethods::is')
def _(I, a, ref, rt):
    x, y = pobj(I, a[0]), pobj(I, a[1])
    return True if x is y else S('is', x, y)


@model('pyo3::types::any::PyAnyMethods::is_truthy')
def _(I, a, ref, rt):
    o = pobj(I, a[0])
    ev = I.event('truth', '', (o,))
    return memo_outcome(I, ev, ('truth', o), lambda: S('truthy', o))


@model('pyo3::types::any::PyAnyMethods::is_callable')
def _(I, a, ref, rt):
    return S('callable', pobj(I, a[0]))


def targ(I, ref):
    for x in reversed(ref['args']):
        if isinstance(x, int):
            return short(tstr(I, x))
    return '?'


@model('pyo3::types::any::PyAnyMethods::is_instance_of', 'pyo3::types::any::PyAnyMethods::is_exact_instance_of')
def _(I, a, ref, rt):
    o = pobj(I, a[0])
    t = S('isinstance', o, targ(I, ref))
    k = I.path.known(t)
    return t if k is None else k


@model('pyo3::types::any::PyAnyMethods::is_instance')
def _(I, a, ref, rt):
    o, t = pobj(I, a[0]), pobj(I, a[1])
    ev = I.event('isinstance', '', (o, t))
    return memo_outcome(I, ev, ('isinstance', o, t), lambda: S('isinstance', o, t))


@model('pyo3::types::typeobject::PyTypeMethods::is_subclass_of')
def _(I, a, ref, rt):
    o = pobj(I, a[0])
    T = targ(I, ref)
    ev = I.event('subclass', T, (o,))

    def mk():
        t = S('subclass', o, T)
        k = I.path.known(t)
        return t if k is None else k
    return memo_outcome(I, ev, ('subclass', o, T), mk)


@model('pyo3::types::any::PyAnyMethods::downcast', 'pyo3::types::any::PyAnyMethods::downcast_into', 'pyo3::types::any::PyAnyMethods::downcast_exact', 'pyo3::types::any::PyAny::downcast')
def _(I, a, ref, rt):
    o = pobj(I, a[0])
    T = targ(I, ref)
    I.event('downcast', T, (o,))
    if I.path.decide(S('isinstance', o, T)):
        return ok(a[0])
    return err(S('pyerr', 'downcast', o, T))


@model('pyo3::types::any::PyAnyMethods::extract', 'pyo3::conversion::FromPyObject::extract_bound')
def _(I, a, ref, rt):
    o = pobj(I, a[0])
    t = rttype(I, rt)
    T = I.T[t['a'][0]] if t.get('a') else {'s': '?'}
    ev = I.event('extract', T['s'], (o,))
    T_s = T['s']

    def mk():
        if T_s in ('alloc::string::String', '&str'):
            return S('str', o)
        if T_s in ('u8', 'usize', 'i32', 'i64', 'u32', 'u64'):
            return S('int', o)
        if T_s == 'bool':
            return S('bool', o)
        return o
    return memo_outcome(I, ev, ('extract', o, T_s), mk)


@model('pyo3::types::any::PyAnyMethods::str', 'pyo3::types::any::PyAnyMethods::repr')
def _(I, a, ref, rt):
    o = pobj(I, a[0])
    ev = I.event(ref['item'], '', (o,))
    return memo_outcome(I, ev, (ref['item'], o), lambda: S('pystr', pystr(o) if ref['item'] == 'str' else S('reprof', o)))


@model('pyo3::types::module::PyModuleMethods::name', 'pyo3::types::typeobject::PyTypeMethods::name', 'pyo3::types::typeobject::PyTypeMethods::qualname', 'pyo3::types::module::PyModuleMethods::filename')
def _(I, a, ref, rt):
    o = pobj(I, a[0])
    k = ref['item']
    is_mod = 'module' in ref['name']
    ev = I.event('pyname', k, (o,))

    def mk():
        if is_mod and k == 'name':
            n = I.policy.module_name(I.path, o) if hasattr(I.policy, 'module_name') else None
            return S('pystr', S('modname', o) if n is None else n)
        return S('tname', o) if not is_mod else S('pystr', S('str', S('attr', o, k)))
    return memo_outcome(I, ev, ('pyname', k, o), mk)


STR_OPS |= {'modname', 'reprof', 'trim_start_matches', 'trim_end_matches', 'trim_matches', 'substr', 'repeat', 'charstr', 'formatted'}


@model('pyo3::types::module::PyModuleMethods::index')
def _(I, a, ref, rt):
    o = pobj(I, a[0])
    ev = I.event('index', '', (o,))
    return memo_outcome(I, ev, ('index', o), lambda: S('__all__', o))


@model('pyo3::types::module::PyModuleMethods::dict')
def _(I, a, ref, rt):
    return S('attr', pobj(I, a[0]), '__dict__')


@model('pyo3::types::any::PyAnyMethods::iter')
def _(I, a, ref, rt):
    o = pobj(I, a[0])
    ev = I.event('iter', '', (o,))
    return memo_outcome(I, ev, ('iter', o), lambda: PyIt(I, o, True))


class PyIt(It):
    """Python iterator over an object: every step may raise"""

    def __init__(self, I, o, fallible):
        self.o, self.fallible, self.i, self.l = o, fallible, 0, None

    def next(self, I):
        if self.l is None:
            self.l = py_items(I, self.o)
        if self.i >= len(self.l):
            return END
        x = self.l[self.i]
        self.i += 1
        if self.fallible:
            ev = I.event('iter_next', '', (self.o, self.i - 1))
            return memo_outcome(I, ev, ('iter_next', self.o, self.i - 1), lambda: x)
        return x


def py_items(I, o):
    key = ('pylist', o)
    l = I.path.memo.get(key)
    if l is None:
        n = I.path.split(tuple(I.policy.lengths(I.path, o)), 'length of %r' % (o,))
        l = I.path.memo[key] = [S('pyel', o, i) for i in range(n)]
        I.path.log.append(('len', o, n))
    return l


@model('pyo3::types::list::PyListMethods::iter', 'pyo3::types::tuple::PyTupleMethods::iter', 'pyo3::types::tuple::PyTupleMethods::iter_borrowed', 'pyo3::types::set::PySetMethods::iter')
def _(I, a, ref, rt):
    return ListIt(list(py_items(I, pobj(I, a[0]))))


@model('pyo3::types::list::PyListMethods::len', 'pyo3::types::tuple::PyTupleMethods::len')
def _(I, a, ref, rt):
    return len(py_items(I, pobj(I, a[0])))


@model('pyo3::types::any::PyAnyMethods::len')
def _(I, a, ref, rt):
    o = pobj(I, a[0])
    ev = I.event('len', '', (o,))
    return memo_outcome(I, ev, ('len', o), lambda: len(py_items(I, o)))


@model('pyo3::types::list::PyListMethods::is_empty', 'pyo3::types::tuple::PyTupleMethods::is_empty')
def _(I, a, ref, rt):
    return len(py_items(I, pobj(I, a[0]))) == 0


@model('pyo3::types::tuple::PyTupleMethods::get_item', 'pyo3::types::list::PyListMethods::get_item')
def _(I, a, ref, rt):
    l = py_items(I, pobj(I, a[0]))
    return ok(l[a[1]]) if a[1] < len(l) else err(S('pyerr', 'index'))


@model('pyo3::types::string::PyStringMethods::to_str', 'pyo3::types::string::PyString::to_str')
def _(I, a, ref, rt):
    o = I.deref(a[0])
    ev = I.event('to_str', '', (o,))
    return memo_outcome(I, ev, ('to_str', pobj(I, o)), lambda: pystr(pobj(I, o)) if isinstance(o, Sym) and not is_strterm(o) else o)


@model('pyo3::types::dict::IntoPyDict::into_py_dict_bound')
def _(I, a, ref, rt):
    return S('pydict', I.freeze(a[0]))


@model('pyo3::types::string::PyString::new_bound', 'pyo3::types::string::PyString::intern_bound')
def _(I, a, ref, rt):
    return S('pystr', sv(I, a[1]))


@model('pyo3::types::tuple::PyTuple::new_bound', 'pyo3::types::list::PyList::new_bound')
def _(I, a, ref, rt):
    return S('pytuple', *[I.freeze(x) for x in it_of(I, a[1]).drain(I)])


@model('pyo3::types::dict::PyDict::new_bound')
def _(I, a, ref, rt):
    return S('newdict', I.path.fresh())


@model('pyo3::types::module::PyModule::from_code_bound')
def _(I, a, ref, rt):
    ev = I.event('from_code', '', (sv(I, a[1]), sv(I, a[2]), sv(I, a[3])))
    return I.outcome(ev, lambda: S('codemodule', sv(I, a[3])))


@model('pyo3::sync::Interned::new')
def _(I, a, ref, rt):
    return Adt('pyo3::sync::Interned', 0, [sv(I, a[0])])


@model('pyo3::sync::Interned::get')
def _(I, a, ref, rt):
    return S('pystr', pname(I, a[0]))


@model('pyo3::err::PyErr::print', 'pyo3::err::PyErr::display')
def _(I, a, ref, rt):
    return UNIT


PY_ERRORS = ('ArithmeticError AssertionError AttributeError BaseException BufferError ConnectionError DeprecationWarning EOFError EnvironmentError Exception FileExistsError FileNotFoundError FloatingPointError FutureWarning '
             'GeneratorExit IOError ImportError IndexError InterruptedError KeyError KeyboardInterrupt LookupError MemoryError ModuleNotFoundError NameError NotADirectoryError NotImplementedError OSError OverflowError '
             'PermissionError RecursionError ReferenceError RuntimeError RuntimeWarning StopIteration SyntaxError SystemError SystemExit TimeoutError TypeError UnicodeError UserWarning ValueError Warning ZeroDivisionError').split()


@model('pyo3::err::PyErr::new', 'pyo3::err::PyErr::from_type_bound', 'pyo3::err::PyErr::from_type', *['pyo3::exceptions::Py%s::new_err' % n for n in PY_ERRORS])
def _(I, a, ref, rt):
    # an error of its own: not the one that some Python operation gave
    return S('newerr', ref['name'].split('::')[-2], I.freeze(a[-1]))


@model('pyo3::err::PyErr::is_instance_of', 'pyo3::err::PyErr::is_instance_bound', 'pyo3::err::PyErr::matches', 'pyo3::err::PyErr::is_instance')
def _(I, a, ref, rt):
    return S('errkind', I.freeze(I.deref(a[0])), str(ref.get('generics') or ref.get('args') or ''))


@model('pyo3::err::PyErr::clone_ref')
def _(I, a, ref, rt):
    return I.deref(a[0])


@model('pyo3::err::PyErr::value_bound', 'pyo3::err::PyErr::get_type_bound', 'pyo3::err::PyErr::into_value', 'pyo3::err::PyErr::value')
def _(I, a, ref, rt):
    return S('errpart', ref['item'], I.freeze(I.deref(a[0])))


@model("pyo3::marker::Python::<'py>::None", "pyo3::marker::Python::<'py>::NotImplemented", "pyo3::marker::Python::<'py>::Ellipsis")
def _(I, a, ref, rt):
    return S('pyconst', ref['item'])


# ---------------------------------------------------------------- tokens
def ts_string(ts):
    r = render(ts.t)
    if any(isinstance(x, Sym) for x in flat(ts.t)):
        return S('ts', r)
    return r


def flat(toks):
    for t in toks:
        if isinstance(t, tuple):
            if t[0] == 'group':
                yield from flat(t[2])
            else:
                yield from t[1:]
        else:
            yield t


@model('proc_macro2::TokenStream::new')
def _(I, a, ref, rt):
    return TS()


@model('proc_macro2::TokenStream::is_empty')
def _(I, a, ref, rt):
    return not I.deref(a[0]).t


PUNCT = dict(add='+', add_eq='+=', and_='&', and_and='&&', and_eq='&=', at='@', bang='!', caret='^', caret_eq='^=', colon=':', colon2='::', comma=',', div='/', div_eq='/=', dot='.',
             dot2='..', dot3='...', dot_dot_eq='..=', eq='=', eq_eq='==', fat_arrow='=>', ge='>=', gt='>', larrow='<-', le='<=', lt='<', mul='*', mul_eq='*=', ne='!=', or_='|', or_or='||',
             or_eq='|=', pound='#', question='?', rarrow='->', rem='%', rem_eq='%=', semi=';', shl='<<', shl_eq='<<=', shr='>>', shr_eq='>>=', star='*', sub='-', sub_eq='-=', underscore='_')


def _mk_punct(name, text):
    def f(I, a, ref, rt):
        I.deref(a[0]).t.append(text)
        return UNIT
    M['quote::__private::push_' + name.rstrip('_')] = f

    def g(I, a, ref, rt):
        I.deref(a[0]).t.append(text)
        return UNIT
    M['quote::__private::push_%s_spanned' % name.rstrip('_')] = g


for _n, _x in PUNCT.items():
    _mk_punct(_n, _x)


@model('quote::__private::push_ident')
def _(I, a, ref, rt):
    I.deref(a[0]).t.append(sv(I, a[1]))
    return UNIT


@model('quote::__private::push_lifetime')
def _(I, a, ref, rt):
    I.deref(a[0]).t.append(sv(I, a[1]))
    return UNIT


@model('quote::__private::push_group')
def _(I, a, ref, rt):
    d = a[1]
    k = 'pbkn'[d.v] if isinstance(d, Adt) else 'p'
    I.deref(a[0]).t.append(('group', k, I.deref(a[2]).t))
    return UNIT


@model('quote::__private::parse')
def _(I, a, ref, rt):
    I.deref(a[0]).t.append(sv(I, a[1]))
    return UNIT


@model('quote::to_tokens::ToTokens::to_tokens')
def _(I, a, ref, rt):
    ts = I.deref(a[1])
    tokenize(I, a[0], ts, tinfo(I, ref['args'][0]) if ref['args'] else None)
    return UNIT


def strip_refs(I, t):
    while t and t['k'] in ('ref', 'ptr'):
        t = I.T[t['t']]
    return t


def tokenize(I, v, ts, t=None):
    t = strip_refs(I, t)
    v = I.deref(v)
    if isinstance(v, Adt) and v.p.endswith('RepInterp'):
        return tokenize(I, v.f[0], ts, I.T[t['a'][0]] if t and t['k'] == 'adt' and t['a'] else None)
    if isinstance(v, TS):
        ts.t.extend(v.t)
    elif isinstance(v, Adt) and v.p == 'syn::Ident':
        ts.t.append(('id', v.f[0]))
    elif isinstance(v, Adt) and v.p == 'syn::Path':
        ts.t.append(('id', v.f[0]))
    elif isinstance(v, Adt) and v.p == OPTION:
        if good(v):
            tokenize(I, v.f[0], ts, I.T[t['a'][0]] if t and t.get('a') else None)
    elif isinstance(v, str):
        ts.t.append(('lit', v))
    elif isinstance(v, bool):
        ts.t.append('true' if v else 'false')
    elif isinstance(v, int):
        ts.t.append(str(v) + (t['s'] if t and t['k'] == 'prim' else ''))
    elif isinstance(v, Sym):
        if is_strterm(v) or (t and t['s'] in ('str', 'alloc::string::String')):
            ts.t.append(('lit', v))
        elif t and t.get('p') == OPTION:
            x = I.variant_value(v, None, None, find_type_s(I, t['s']))
            tokenize(I, x, ts, t)
        else:
            ts.t.append(('opaque', v))
    else:
        raise Undecided('to_tokens of %r' % (v,))


def find_type_s(I, s):
    for i, t in enumerate(I.T):
        if t and t['s'] == s:
            return i


@model('quote::to_tokens::ToTokens::to_token_stream', 'quote::to_tokens::ToTokens::into_token_stream')
def _(I, a, ref, rt):
    ts = TS()
    tokenize(I, a[0], ts, tinfo(I, ref['args'][0]) if ref['args'] else None)
    return ts


@model('quote::__private::ext::RepAsIteratorExt::quote_into_iter', 'quote::__private::ext::RepIteratorExt::quote_into_iter', 'quote::__private::ext::RepToTokensExt::quote_into_iter')
def _(I, a, ref, rt):
    v = I.deref(a[0])
    it = v if isinstance(v, It) else to_iter(I, a[0] if isinstance(a[0], (Ref, Slice)) else Ref([a[0]]))
    return Tup([it, Adt('quote::__private::HasIterator', 0, [])])


@model('syn::parse_str')
def _(I, a, ref, rt):
    s = sv(I, a[0])
    T = targ(I, ref)
    I.event('syn_parse', T, (s,))
    if T == 'Ident':
        k = I.path.known_ident(s)
        if k is None:
            k = I.path.decide(S('valid_ident', s))
        return ok(Adt('syn::Ident', 0, [s])) if k else err(S('synerr', T, s))
    if T == 'Path':
        if isinstance(s, str):
            g = path_lexes(s)
        else:
            g = valid_path_term(I, s)
        return ok(Adt('syn::Path', 0, [s])) if g else err(S('synerr', T, s))
    if I.path.decide(S('parses', T, s)):
        return ok(S('parsed', T, s))
    return err(S('synerr', T, s))


def path_lexes(s):
    b = s[2:] if s.startswith('::') else s
    return bool(b) and all(ident_lexes(x) or x in ('self', 'super', 'crate', 'Self') for x in b.split('::'))


def valid_path_term(I, s):
    ps = parts(s)
    segs, cur = [], []
    for p in ps:
        if isinstance(p, str):
            bits = p.split('::')
            for i, b in enumerate(bits):
                if i:
                    segs.append(cur)
                    cur = []
                if b:
                    cur.append(b)
        else:
            cur.append(p)
    segs.append(cur)
    if segs and not segs[0] and len(segs) > 1:
        segs = segs[1:]
    for g in segs:
        x = cat(*g)
        if isinstance(x, str):
            if not (ident_lexes(x) or x in ('self', 'super', 'crate', 'Self')):
                return False
        elif not I.path.decide(S('valid_ident', x)):
            return False
    return True


@model('syn::parse2')
def _(I, a, ref, rt):
    I.event('syn_parse2', '', (a[0],))
    if I.path.decide(S('parses', 'File', I.freeze(a[0]))):
        return ok(S('file', I.freeze(a[0])))
    return err(S('synerr', 'File', I.freeze(a[0])))


@model('prettyplease::unparse')
def _(I, a, ref, rt):
    return S('pretty', I.freeze(a[0]))


STR_OPS |= {'pretty', 'ts', 'nm', 'fmtdoc'}


@model('proc_macro2::Ident::new', 'proc_macro2::Ident::new_raw')
def _(I, a, ref, rt):
    s = sv(I, a[0])
    raw = ref['name'].endswith('raw')
    x = cat('r#', s) if raw else s
    if isinstance(x, str):
        b = x[2:] if x.startswith('r#') else x
        if not b.isidentifier() or x in ('r#self', 'r#super', 'r#crate', 'r#Self', 'r#_'):
            I.panic('ident', 'proc_macro2::Ident::new(%r)' % (x,), cause=x)
    elif I.path.known_ident(x) is not True and not I.path.decide(S('identlike', x)):
        I.panic('ident', 'proc_macro2::Ident::new(%r)' % (x,), cause=repr(x))
    return Adt('syn::Ident', 0, [x])


@model('proc_macro2::Span::call_site', 'proc_macro2::Span::mixed_site')
def _(I, a, ref, rt):
    return S('span')


@model('proc_macro2::Literal::string', 'proc_macro2::Literal::usize_unsuffixed')
def _(I, a, ref, rt):
    return S('literal', I.freeze(a[0]))


@model('syn::error::Error::new', 'syn::error::Error::new_spanned')
def _(I, a, ref, rt):
    return S('synerr', 'custom', I.freeze(a[1]))


@model('core::error::Error::source')
def _(I, a, ref, rt):
    return none()


# ---------------------------------------------------------------- the engine's public API, as its clients see it
CG = 'pyo3_bindgen_engine::codegen::Codegen::'


def cg_event(I, meth, cg, arg, good_):
    ev = I.event('engine', meth, (cg,) + ((arg,) if arg is not None else ()))
    if I.path.split(('ok', 'err'), 'outcome of Codegen::' + meth) == 'err':
        ev.res = 'err'
        return err(S('engerr', meth, len(I.path.events)))
    ev.res = 'ok'
    return ok(good_())


def cg_of(I, v):
    v = I.deref(v)
    return v if isinstance(v, Sym) and v.op == 'cg' else I.freeze(v)


def dflt_hook(I, t):
    if not t or t.get('k') != 'adt' or t['p'].startswith(I.P.crate + '::'):
        return None
    return S('cg') if t['p'].endswith('codegen::Codegen') else S('configured', 'default') if t['p'].endswith('config::Config') else None


@model(CG + 'new')
def _(I, a, ref, rt):
    c = I.freeze(I.deref(a[0]))
    return S('cg', *([c] if isinstance(c, Sym) and c.op == 'configured' and c is not S('configured', 'default') else []))


def _configured(I, a, ref, rt):
    # a configuration that a client of the engine makes: only its default is known to be the default
    k = ref['name'].split('::')[-1]
    if k == 'default' or k == 'builder' and not a:
        return S('configured', 'default') if k == 'default' else S('configured', 'builder')
    if k == 'build' and I.deref(a[0]) is S('configured', 'builder'):
        return S('configured', 'default')
    return S('configured', k, *[I.freeze(I.deref(x)) for x in a])


PREFIXES['pyo3_bindgen_engine::config::'] = _configured


@model(CG + 'module_name', CG + 'module')
def _(I, a, ref, rt):
    cg = cg_of(I, a[0])
    x = I.deref(a[1])
    x = sv(I, x) if ref['name'].endswith('_name') else I.freeze(x)
    return cg_event(I, ref['name'].split('::')[-1], cg, x, lambda: S('cg', *cg.args, x))


@model(CG + 'module_names')
def _(I, a, ref, rt):
    cg = cg_of(I, a[0])
    xs = [sv(I, x) for x in list_of(I, I.deref(a[1]))]
    return cg_event(I, 'module_names', cg, S('names', *xs), lambda: S('cg', *cg.args, *xs))


@model(CG + 'generate')
def _(I, a, ref, rt):
    cg = cg_of(I, a[0])
    return cg_event(I, 'generate', cg, None, lambda: TS([('opaque', S('bindings', cg))]))


@model(CG + 'build')
def _(I, a, ref, rt):
    cg = cg_of(I, a[0])
    return cg_event(I, 'build', cg, sv(I, a[1]), lambda: UNIT)


# ---------------------------------------------------------------- clap, proc-macro input, dlopen
@model('clap_builder::derive::Parser::parse')
def _(I, a, ref, rt):
    t = I.T[rt[1]]
    I.event('cli_args', t['p'], ())
    fs = I.P.adts[t['p']]['v'][0]['f']
    return I.policy.cli_args(I, t['p'], fs) if hasattr(I.policy, 'cli_args') else S('args', ty=rt)


@model('syn::parse')
def _(I, a, ref, rt):
    if I.path.decide(S('parses', 'macro input')):
        t = I.T[rt[1]]
        at = t['a'][0]
        return ok(S('macroargs', ty=(I.P.crate, at)))
    return err(S('synerr', 'macro input'))


@model('proc_macro::TokenStream::new')
def _(I, a, ref, rt):
    return TS([])


@model('syn::error::Error::to_compile_error', 'syn::error::Error::into_compile_error')
def _(I, a, ref, rt):
    return TS(['compile_error', ('p', '!', False), ('group', 'p', [])])


@model('alloc::ffi::c_str::CString::new')
def _(I, a, ref, rt):
    s = sv(I, a[0])
    if I.path.decide(negate(S('contains', s, '\0'))):
        return ok(S('cstr', s))
    I.event('cstring', '', (s,)).res = 'err'
    return err(S('nulerr', s))


@model('core::ffi::c_str::CStr::as_ptr')
def _(I, a, ref, rt):
    return I.deref(a[0])


@model('libc::unix::dlopen', 'libc::dlopen')
def _(I, a, ref, rt):
    I.event('dlopen', '', (I.deref(a[0]), a[1]))
    return S('handle')


@model('std::fs::File::create', 'std::fs::File::create_new')
def _(I, a, ref, rt):
    ev = I.event('fs_open', 'create', (display(I, a[0]),))
    r = I.outcome(ev, lambda: S('file', display(I, a[0])))
    return r if good(r) else err(S('ioerr', 'create'))


@model('std::io::buffered::bufwriter::BufWriter::<W>::new', 'std::io::buffered::linewriter::LineWriter::<W>::new')
def _(I, a, ref, rt):
    return I.deref(a[0])


M['std::path::Path::exists'] = M['std::path::Path::is_dir'] = M['std::path::Path::try_exists'] = lambda I, a, ref, rt: S('path_exists', sv(I, a[0]))

# the GIL-ref API answers like the Bound API
for _n in [x for x in M if x.startswith('pyo3::types::any::PyAnyMethods::')]:
    M.setdefault(_n.replace('PyAnyMethods', 'PyAny'), M[_n])
