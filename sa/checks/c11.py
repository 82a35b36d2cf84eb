"""C11 property accessors read and write the attribute they are named for"""
from tree import P_
from calls import *
import parsefn
from checks.c12 import Types
from checks.c10 import ImportPolicy, scope_path, callee

SHOWS = {'PyLong': 'i64', 'PyString': 'str', 'PyBool': 'bool'}        # how the type shows in the signature
NAMES = ('x', 'type', 'm', 'C', 'self_', 'Value', 'camelCase', '_private')


def jobs_of(P, T, thorough):
    out = []
    anns = [('Unknown', 'Unknown'), ('PyLong', 'PyString'), ('PyString', ('Optional', 'PyLong')), (('PyList', 'PyLong'), ('PyDict', 'PyString', 'PyLong')), (('Optional', 'PyString'), ('PyTuple', 'PyLong', 'PyString')),
            ('PyBool', ('PySet', 'PyString')), (('PyTuple',), 'PyAny')]
    if thorough:
        ts = T.all(False)
        anns = [(a, b) for a, b in zip(ts, ts[1:] + ts[:1])] + anns
    for mod in [['m'], ['a', 'b'], ['a', 'type', 'c']]:
        for ann, sann in anns if mod == ['m'] else anns[:2]:
            for mut in (True, False):
                names = list(dict.fromkeys(n for n in NAMES))

                def mk(mod=mod, mut=mut, ann=ann, sann=sann):
                    return module(P, mk_path(P, mod), properties=[prop(P, mk_path(P, mod + [n]), 'Module', mut, T.mk(ann), T.mk(sann)) for n in names if n != 'C'],
                                  classes=[klass(P, mk_path(P, mod + [c]), properties=[prop(P, mk_path(P, mod + [c, n]), 'Class', mut, T.mk(ann), T.mk(sann)) for n in names]) for c in ('C', 'match')]), []
                w, no = {}, []
                sc = scope_path(mod[-1:])
                for n in names:
                    for scope, how, owner in ([] if n == 'C' else [(sc, 'fn', '.'.join(mod))]) + [(sc + '::' + env.rs_name(None, c), 'trait', None) for c in ('C', 'match')]:
                        w[(scope, how, env.rs_name(None, n))] = ('get', owner, n, ann)
                        if mut:
                            w[(scope, how, 'set_' + n)] = ('set', owner, n, sann)
                        else:
                            no.append((scope, how, 'set_' + n))
                out.append(dict(label='%s attributes %s: %s / %s' % ('writable' if mut else 'read-only', '.'.join(mod), ann, sann), make=mk, want=w, absent=no))
    return out


def judge(L, path, out, exp, where, fname, argtys, imps):
    kind, owner, name, ty = exp
    L.count('accessors judged')
    acts = [e for e in path.events if e.kind in ('pycall', 'setattr', 'setitem', 'getitem', 'delattr')]
    if ty in SHOWS:
        used = argtys[-1] if kind == 'set' else ' '.join(e.name for e in path.events if e.kind == 'extract')
        if SHOWS[ty] not in used.lower():
            L.violation('a %ster does not use the type of the Python %ster' % (kind, kind), '%s: %s instead of %s' % (where, used, ty))
    if kind == 'get':
        v = unconvert(out)
        while isinstance(v, Sym) and v.op in ('int', 'str', 'bool', 'float') and len(v.args) == 1:
            v = v.args[0]
        if acts or not (isinstance(v, Sym) and v.op == 'attr' and len(v.args) == 2):
            L.violation('a getter does not return the value of an attribute', '%s: %s, %s' % (where, v, [e.kind for e in acts]))
            return
        obj, attr = callee(v.args[0], v.args[1])
        L.sample('%s reads %s.%s' % (where, obj, '.'.join(map(str, attr))))
    else:
        if [e.kind for e in acts] != ['setattr']:
            L.violation('a setter does not set exactly one attribute', '%s: %s' % (where, [e.kind for e in acts]))
            return
        o, n, val = acts[0].args[:3]
        obj, attr = callee(o, n)
        L.sample('%s writes %s.%s' % (where, obj, '.'.join(map(str, attr))))
        args = [S('arg', fname, 0)]
        got = unconvert(peel(val))
        if got is not args[0] and not value_of(path, got, args[0]):
            L.violation('a setter does not assign its argument', '%s: %s' % (where, got))
    if owner is None:
        good = obj == 'self' and attr == [name]
    else:
        good = obj not in ('self', None) and '.'.join([str(obj)] + [str(a) for a in attr]) == owner + '.' + name
        if good:
            segs = owner.split('.')
            longer = ['.'.join(segs[:j]) for j in range(len(obj.split('.')) + 1, len(segs) + 1)]
            if any(imps.get(x) != 'err' for x in longer):
                L.violation('an accessor looks up a package as an attribute although it can be imported', '%s: imports %s' % (where, obj))
            if len(obj.split('.')) > 1 and imps.get(obj) != 'ok':
                L.violation('an accessor imports a module that the generator could not import', '%s: %s' % (where, obj))
    if not good:
        L.violation('a %ster does not %s the attribute of its own name on its owner' % (kind, {'get': 'read', 'set': 'write'}[kind]), '%s: %s.%s' % (where, obj, attr))


def value_of(path, t, arg):
    """t is the payload of the optional argument, or None because the argument is None"""
    if isinstance(t, Sym) and t.op == 'v' and t.args[0] is arg:
        return True
    if isinstance(t, Sym) and t.op == 'adt' and t.args[0] == 'Option':
        return path.facts.get(S('variant', arg)) == 'None' and len(t.args) == 2
    return False


# ------------------------------------------------------------------ parsed side
class PropPolicy(parsefn.FnPolicy):
    def outcomes(self, path, ev):
        if ev.kind == 'getattr' and ev.args[1] in ('fget', 'fset') or is_sig(ev):
            return ('ok', 'err')
        return ('ok',)

    def opaque(self, I, name, body, args):
        if name.endswith('::docstring'):
            def doc(I, a, ref, rt):
                o = models.pobj(I, a[0])
                k = I.path.split((False, True), ('doc', o))
                I.path.memo[('doc', o)] = k
                return ok(some(S('doc', o)) if k else none())
            return doc
        return super().opaque(I, name, body, args)


def is_sig(e):
    return e.kind == 'pycall' and len(e.args) > 2 and isinstance(e.args[2], Sym) and (e.args[1] == 'signature' and e.args[0] is S('pymodule', 'inspect') or e.args[0] is S('attr', S('pymodule', 'inspect'), 'signature') and e.args[1] is None)


def sig_of(path, f):
    """(asked for the signature of f, its term or None if that failed)"""
    for e in path.events:
        if is_sig(e) and [peel(x) for x in e.args[2].args] == [f]:
            return True, (S('ret', *e.args) if e.res == 'ok' else None)
    return False, None


def annotated(P, path, v, holder, attr):
    """v is the type of holder.attr, or unknown if that is holder.empty"""
    no = path.facts.get(S('is', S('attr', holder, attr), S('attr', holder, 'empty')))
    return (isinstance(v, Adt) and parsefn.vname(P, v) == 'Unknown') if no is True else (no is False and v is S('annot', S('attr', holder, attr)))


def judge_parse(L, P, path, v, owner):
    d = parsefn.fields(P, v, 'property::Property')
    p = S('p')
    L.count('properties judged')
    if [x.f[0] for x in d['name'].f[1].items][:2] != ['m', 'C'] or d['name'].f[1].items[2].f[0] is not S('rs', S('nm', 'p')):
        L.violation('a parsed property does not keep its path', str(d['name']))
    mut = path.memo['mutable']
    ty = S('type', p)
    typed = lambda t: t is S('annot', S('typeof', p))
    if owner == 'Module':
        if not mut:
            L.violation('a module attribute has no setter', '')
        if not typed(d['annotation']) or d['setter_annotation'] is not d['annotation'] and str(d['setter_annotation']) != str(d['annotation']):
            L.violation('a module attribute is not typed by its value', '%s / %s' % (d['annotation'], d['setter_annotation']))
        return
    fget, fset = S('attr', p, 'fget'), S('attr', p, 'fset')
    res = {e.args[1]: e.res for e in path.events if e.kind == 'getattr' and e.args[0] is p}
    nn = [x for k, x in path.facts.items() if isinstance(k, Sym) and fset in k.args and k.op in ('isnone', 'is')]
    has = res.get('fset') == 'ok' and nn == [False]
    if res.get('fset') == 'ok' and not nn or res.get('fset') is None:
        L.violation('a property is made writable or read-only without looking at its setter', '%s, writable %s' % (res, mut))
        return
    if mut != has:
        L.violation('a property is writable although it has no setter, or the reverse', 'setter %s, writable %s' % (has, mut))
        return
    # getter type
    asked, sig = sig_of(path, fget)
    if res.get('fget') == 'ok' and not asked:
        L.violation('a property is not typed by its getter', str(d['annotation']))
    elif res.get('fget') == 'ok' and sig is not None:
        if not annotated(P, path, d['annotation'], sig, 'return_annotation'):
            L.violation('a property is not typed by its getter', str(d['annotation']))
    elif not typed(d['annotation']) and not (isinstance(d['annotation'], Adt) and parsefn.vname(P, d['annotation']) in ('Unknown', 'PyAny')):
        L.violation('a property without a typed getter is typed by something else than its own type', str(d['annotation']))
    # setter type
    if has:
        asked, sig = sig_of(path, fset)
        if not asked:
            L.violation('a setter is not typed by the parameter of the Python setter', str(d['setter_annotation']))
        elif sig is None:
            if not (isinstance(d['setter_annotation'], Adt) and parsefn.vname(P, d['setter_annotation']) in ('Unknown', 'PyAny')):
                L.violation('a setter without a signature is typed', str(d['setter_annotation']))
        else:
            es = [v for k, v in path.memo.items() if isinstance(k, tuple) and k[0] == 'pylist' and v is not None and sig in parsefn._sub(k[1])]
            es = es[0] if es else []
            if len(es) < 2:
                good = isinstance(d['setter_annotation'], Adt) and parsefn.vname(P, d['setter_annotation']) == 'Unknown'
            else:
                good = annotated(P, path, d['setter_annotation'], es[1], 'annotation')
            if not good:
                L.violation('a setter is not typed by the parameter of the Python setter', '%s of %d parameters' % (d['setter_annotation'], len(es)))
    # documentation: its own, or else that of the other accessor
    gd = S('doc', fget) if res.get('fget') == 'ok' and path.memo.get(('doc', fget)) else None
    sd = S('doc', fset) if has and path.memo.get(('doc', fset)) else None
    if res.get('fget') == 'ok' and ('doc', fget) not in path.memo or has and ('doc', fset) not in path.memo:
        L.violation('the documentation of an accessor is not looked at', '')
    for n, got, own, other in (('getter', d['docstring'], gd, sd), ('setter', d['setter_docstring'], sd, gd)):
        want = own if own is not None else other
        if n == 'setter' and not has:
            continue
        g = got.f[0] if isinstance(got, Adt) and got.f else None
        if g is not want:
            L.violation('a %s is not documented by its Python %s, or else by the other accessor' % (n, n), '%s instead of %s' % (g, want))


def run(rep):
    P = program()
    M = contracts(P)
    T = Types(P)
    thorough = rep.tier != 'quick'
    jobs = jobs_of(P, T, thorough)
    outs = emit(rep, P, M, 'c11', jobs, policy=gen_policy(P, False, kinds=(), base=ImportPolicy))
    W = lower(rep, 'c11', outs, jobs)
    interpret_all(rep, W, jobs, judge, 'generated accessors')
    fp = fn(P, 'property::Property::parse')
    for owner in ('Module', 'Class'):
        pol = PropPolicy()
        pol.maxlen = 3

        def r(path, owner=owner):
            v = Interp(P, path, M).call_body(fp, [Ref([cfg_with(P)]), Ref([S('p')]), mk_path(P, ['m', 'C', S('nm', 'p')]), enum(P, 'property::PropertyOwner', owner)])
            if isinstance(v, Adt) and v.v == 0:
                path.memo['mutable'] = path.decide(parsefn.fields(P, v.f[0], 'property::Property')['is_mutable'])
            return v

        def j(L, path, o, owner=owner):
            if o[0] in ('undecided', 'stop'):
                return
            L.count('obligations')
            if o[0] == 'panic':
                L.violation('Property::parse panics', '%s: %s' % (owner, o[1]))
            elif is_ok(o):
                L.d['cov']['reach'] = 1
                judge_parse(L, P, path, o[1].f[0], owner)
            elif not any(e.res == 'err' for e in path.events):
                L.violation('Property::parse fails without a failing operation', owner)
        explore_all(rep, 'Property::parse ' + owner, r, pol, j)
        if not rep.cov.pop('reach', 0):
            rep.violation('coverage: no parsed property: ' + owner, '')
    return dict(level='other',
                rule='(generated side) For module attributes and class properties, writable and read-only, of owners with paths of 1 to 3 segments, names that are Rust keywords or equal their owner\'s name, and every outcome of the '
                     'imports the generator tries: the generated getter returns the extracted attribute of its own Python name on its receiver or module (imported by the longest importable prefix) and does nothing else; the '
                     'setter sets exactly that attribute to exactly its argument; a setter is generated iff the property is writable; both use their own type. (parsed side) On every path of Property::parse a module attribute '
                     'is writable and typed by its value; a class property is writable iff it has a setter that is not None, its getter is typed by the return annotation of fget and documented by it, its setter by the '
                     'second parameter of fset, each falling back to the documentation of the other.',
                assumptions=['contracts in sa/models.py and sa/wmodels.py', 'setters of up to 3 parameters', 'name collisions of accessors are decided by C18; the mapping of annotations to types by C13'],
                explanation='Abstract interpretation of the MIR of the generator, of what it generates (through a compile witness) and of the parser.')
