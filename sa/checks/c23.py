"""C23 each generated item is documented by the docstring of its own Python object"""
import re
from tree import *
import models, parsefn
import checks.c02 as c02

LOSSY = ('line', 'lines', 'sp', 'before', 'after', 'rbefore', 'rafter', 'substr', 'lower', 'upper', 'char0', 'lastchar', 'piece', 'trim_start_matches', 'trim_end_matches', 'repr', 'debug')


def attrs_in(t):
    """the Python attributes that a text is made of"""
    if isinstance(t, Sym):
        if t.op == 'attr':
            yield t
        else:
            for a in t.args:
                yield from attrs_in(a)


class Pol(ParsePolicy):
    """attribute accesses of `__doc__` may fail; summaries for everything that is parsed below"""
    def __init__(self, P):
        self.opaque_names = {'class::Class::parse': summary_parser(P, 'class::Class', 'Class')(''), 'function::Function::parse': summary_parser(P, 'function::Function', 'Function')(''),
                             'property::Property::parse': summary_parser(P, 'property::Property', 'Property')(''), 'module::Module::parse': module_summary(P)}

    nattr = (0,)

    def opaque(self, I, name, body, args):
        if any(name == t or name.endswith(t) for t in (TYPE_FROM if isinstance(TYPE_FROM, (tuple, list)) else (TYPE_FROM,))) and I.frames:
            return parsefn.annot
        return ParsePolicy.opaque(self, I, name, body, args) if I.frames else None

    def outcomes(self, path, ev):
        if ev.kind == 'getattr' and ev.args[1] in ('fget', 'fset') or ev.kind == 'pycall' and ev.args[1] == 'signature' or ev.kind == 'import' and not isinstance(ev.args[0], str):
            return ('ok', 'err')
        return ('ok',)

    def lengths(self, path, s):
        return self.nattr if isinstance(s, Sym) and s.op == 'dir' else (0,)


def doc_of(d):
    return d.f[0] if isinstance(d, Adt) and d.v == 1 else None


def text_facts(path, obj):
    """what the path knows about the docstring of obj: 'text', 'none' (not a string, or an empty one) or None if it was not looked at"""
    a = S('attr', obj, '__doc__')
    seen = [e for e in path.events if e.kind == 'getattr' and e.args[0] is obj and e.args[1] == '__doc__']
    if not seen:
        return None
    for k, v in path.facts.items():
        if not isinstance(k, Sym) or a not in parsefn._sub(k):
            continue
        if k.op in ('isinst', 'instance', 'is_instance', 'isinstance', 'exact') and v is False or k.op == 'isnone' and v is True:
            return 'none'
        if k.op == 'eq' and v is True and '' in k.args:
            return 'none'
    return 'text'


def judge_field(L, path, what, d, objs):
    """d: parsed documentation; objs: the objects it may come from, in order of preference"""
    L.count('obligations')
    L.count('parsed documentation judged')
    t = doc_of(d)
    if not isinstance(d, Adt):
        L.violation('the documentation of an item is not taken from its Python object', '%s: %s' % (what, d))
        return
    if t is None:
        for o in objs:
            k = text_facts(path, o)
            if k is None:
                L.violation('the docstring of a Python object is not looked at', '%s: %s' % (what, o))
            elif k == 'text':
                L.violation('the docstring of a Python object is dropped', '%s: %s' % (what, o))
        return
    want = [S('attr', o, '__doc__') for o in objs]
    got = list(attrs_in(t))
    L.sample('%s: %s' % (what, t))
    L.d['cov']['doc ' + what] = 1
    if not got or any(g not in want for g in got):
        L.violation('an item is documented by something else than the docstring of its own Python object', '%s: %s instead of %s' % (what, t, want))
    elif got[0] is not want[0] and text_facts(path, objs[0]) == 'text':
        L.violation('an item is documented by something else than the docstring of its own Python object', '%s: %s instead of %s' % (what, t, want[0]))
    lossy = [x.op for x in parsefn._sub(t) if x.op in LOSSY]
    if lossy:
        L.violation('only a part of a docstring is taken', '%s: %s' % (what, t))


def parsers(rep, P, M, thorough):
    cfg = lambda: Ref([cfg_with(P, generate_preludes=False)])
    q = lambda *x: mk_path(P, list(x))
    jobs = [('Module::parse', 'module::Module', 'parse', lambda: [cfg(), Ref([S('mod')])], S('mod')),
            ('Class::parse', 'class::Class', 'parse', lambda: [cfg(), Ref([S('cls')]), q('m', 'C')], S('cls')),
            ('Module::empty', 'module::Module', 'empty', lambda: [S('py'), q(S('a'), S('b'))], None)]
    for k in ('Function', 'Closure'):
        jobs.append(('Function::parse ' + k, 'function::Function', 'parse', lambda k=k: [cfg(), Ref([S('f')]), q('m', 'f'), ftype(P, k)], S('f')))
    for k in ('Unknown', 'Constructor', 'Callable'):
        jobs.append(('Function::parse ' + k, 'function::Function', 'parse', lambda k=k: [cfg(), Ref([S('f')]), q('m', 'C', 'f'), ftype(P, k, q('m', 'C'))], S('f')))
    for o in ('Module', 'Class'):
        jobs.append(('Property::parse ' + o, 'property::Property', 'parse', lambda o=o: [cfg(), Ref([S('p')]), q('m', 'C', 'p') if o == 'Class' else q('m', 'p'), enum(P, 'PropertyOwner', o)], o))
    for what, tail, f, args, obj in jobs:
        body = fn(P, tail + '::' + f)

        def r(path, body=body, args=args):
            return Interp(P, path, M).call_body(body, args())

        def j(L, path, o, what=what, tail=tail, obj=obj):
            if o[0] in ('undecided', 'stop') or not is_ok(o):
                return
            v = o[1].f[0]
            d = {k: field(P, v, k, tail) for k in ('docstring', 'setter_docstring') if k in fields(P, tail)}
            L.d['cov']['reach ' + what] = 1
            if what == 'Module::empty':
                mods = [S('pymodule', e.args[0]) for e in path.events if e.kind == 'import' and e.res == 'ok']
                named = [S('pymodule', e.args[0]) for e in path.events if e.kind == 'import']
                t = doc_of(d['docstring'])
                if any(e.kind == 'import' and e.res == 'err' for e in path.events) and not mods:
                    L.count('obligations')
                    if t is not None:
                        L.violation('a module that cannot be imported is documented', str(t))
                    return
                for e in path.events:
                    if e.kind == 'import' and not is_full(path, e.args[0]):
                        L.violation('a module is documented by another module', 'imports %s' % (e.args[0],))
                judge_field(L, path, what, d['docstring'], mods)
            elif obj == 'Module':
                for n in d:
                    L.count('obligations')
                    t = doc_of(d[n])
                    if t is not None:
                        L.violation('a module attribute is documented by its type', '%s: %s' % (n, t))
                L.d['cov']['doc ' + what] = 1
            elif obj == 'Class':
                res = {e.args[1]: e.res for e in path.events if e.kind == 'getattr' and e.args[0] is S('p')}
                get, set_ = S('attr', S('p'), 'fget'), S('attr', S('p'), 'fset')
                nn = [x for k, x in path.facts.items() if isinstance(k, Sym) and set_ in k.args and k.op in ('isnone', 'is')]
                has = res.get('fset') == 'ok' and nn == [False]
                g = [get] if res.get('fget') == 'ok' else []
                if g or has:
                    judge_field(L, path, what, d['docstring'], g + ([set_] if has else []))
                    if has:
                        judge_field(L, path, what + ' (setter)', d['setter_docstring'], [set_] + g)
            else:
                judge_field(L, path, what, d['docstring'], [obj])
        explore_all(rep, 'documentation in ' + what, r, Pol(P), j, budget_s=120)
        if not rep.cov.pop('reach ' + what, 0):
            rep.violation('coverage: no result of ' + what, '')
        if not rep.cov.pop('doc ' + what, 0):
            rep.violation('%s never keeps a docstring' % what, '')
        rep.cov.pop('doc ' + what + ' (setter)', 0)


def is_full(path, name):
    """the imported name consists of all segments a.b"""
    return isinstance(name, Sym) and [x for x in re.findall(r"\w+", str(name)) if x in ('a', 'b')] == ['a', 'b']


MERGES = [('', 'a'), ('a', ''), ('a', 'b'), ('', ''), ('', 'a', 'b'), ('', '', 'c')]


def merging(rep, P, M):
    """modules requested more than once: their documentation is that of one of them that has any; also of a parent that was only assumed"""
    for docs in MERGES:
        def mk(docs=docs):
            return [content(P, 'm', 't%d' % i, doc=S('doc', d) if d else None) for i, d in enumerate(docs)]

        def j(L, path, o, docs=docs):
            if o[0] in ('undecided', 'stop') or not is_ok(o):
                return
            L.count('obligations')
            L.d['cov']['reach'] = 1
            for n in roots_of(path):
                have = [S('doc', d) for d in docs if d]
                if have and n.doc not in have or not have and n.doc is not None:
                    L.violation('merging modules loses or changes their documentation', 'copies documented %s: %s' % (list(docs), n.doc))
        explore_all(rep, 'merging documentation %s' % (docs,), run_generate(P, M, mk), tree_policy(P), j)
        if not rep.cov.pop('reach', 0):
            rep.violation('coverage: no merge of %s' % (docs,), '')


def run(rep):
    P = program()
    M = contracts(P)
    parsers(rep, P, M, rep.tier != 'quick')
    merging(rep, P, M)
    c02.docs(rep, P, M)
    if not rep.cov.get('parsed documentation judged'):
        rep.violation('coverage: no parsed documentation', '')
    return dict(level='other',
                rule='(parsed side) On every path of Module::parse, Module::empty, Class::parse, Function::parse (functions, closures and every kind of method) and Property::parse the documentation of the result is made of '
                     '`__doc__` of the very object that is parsed (of fget or fset for properties, falling back to the other) if that is a non-empty string, and is absent otherwise; a module attribute is not documented by its '
                     'type; an assumed parent module is documented by the module of its own full name. (merging) Modules requested repeatedly keep the documentation of a documented copy. (generated side) A docstring is attached, '
                     'once rendered, to the item that it belongs to, and to no other, if and only if documentation is on.',
                assumptions=['the rendering of the text by format_docstring is opaque here (C21 is not claimed)', 'contracts in sa/models.py'],
                explanation='Provenance of documentation by abstract interpretation of the parsers, of the merging and of the generators in MIR.')
