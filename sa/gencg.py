"""Generate-side harness: values of the parsed items, summaries of the item generators, token queries."""
from cg import *

U = lambda P: enum(P, 'typing::Type', 'Unknown')
SUBGEN = {'Import': ('import::Import', 'imports'), 'TypeVar': ('type_var::TypeVar', 'type_vars'), 'Class': ('class::Class', 'classes'),
          'Function': ('function::Function', 'functions'), 'Property': ('property::Property', 'properties'), 'Module': ('module::Module', 'submodules')}


def opt_doc(P, name, doc):
    return some(S('docof', name)) if doc else none()


def ftype(P, kind, cls=None):
    if kind in ('Function', 'Closure'):
        return enum(P, 'FunctionType', kind)
    f = [x for x in P.adts[adt_named(P, 'FunctionType')]['v'] if x['n'] == 'Method'][0]['f']
    d = {'class_path': cls, 'typ': enum(P, 'MethodType', kind)}
    return enum(P, 'FunctionType', 'Method', *[d[x] for x in f])


def param(P, name, kind, ann=None, default=None):
    return struct(P, 'function::Parameter', None, name=mk_ident(P, S('rs', name)) if not isinstance(name, Adt) else name, kind=enum(P, 'ParameterKind', kind),
                  annotation=ann or U(P), default=some(default) if default is not None else none())


def function(P, path, kind='Function', cls=None, params=(), ret=None, doc=False):
    return struct(P, 'function::Function', None, name=path, typ=ftype(P, kind, cls), parameters=Lst(list(params)), return_annotation=ret or U(P),
                  docstring=some(doc) if isinstance(doc, Sym) else none())


def prop(P, path, owner='Class', mutable=True, ann=None, sann=None, doc=None, sdoc=None):
    return struct(P, 'property::Property', None, name=path, owner=enum(P, 'PropertyOwner', owner), is_mutable=mutable, annotation=ann or U(P),
                  setter_annotation=sann or U(P), docstring=some(doc) if doc is not None else none(), setter_docstring=some(sdoc) if sdoc is not None else none())


def klass(P, path, methods=(), properties=(), doc=None):
    return struct(P, 'class::Class', None, name=path, methods=Lst(list(methods)), properties=Lst(list(properties)), docstring=some(doc) if doc is not None else none())


def import_(P, origin, target, typ='SubmoduleReexport'):
    return struct(P, 'import::Import', None, origin=origin, target=target, import_type=enum(P, 'ImportType', typ))


def typevar(P, path):
    return struct(P, 'type_var::TypeVar', None, name=path)


def module(P, path, doc=None, source=None, prelude=(), **vecs):
    kw = {v: Lst([]) for v in VECS}
    kw.update({k: Lst(list(x)) for k, x in vecs.items()})
    return struct(P, 'module::Module', None, name=path, prelude=Lst([mk_ident(P, S('rs', x)) for x in prelude]), docstring=some(doc) if doc is not None else none(),
                  is_package=True, source_code=some(source) if source is not None else none(), **{k: v for k, v in kw.items() if k != 'prelude'})


def item_name(I, P, kind, v):
    return S('names', *path_names(I, field(P, v, 'name' if kind != 'Import' else 'target', SUBGEN[kind][0])))


def gen_summary(P, kind, fallible=True):
    """summary of <kind>::generate: the opaque tokens of that very item, or an error"""
    def h(I, args, ref, rt):
        v = I.deref(args[0])
        nm = item_name(I, P, kind, v)
        ev = I.event('generate', kind, (nm,))
        ev.extra = args
        if fallible and I.path.split(('ok', 'err'), 'result of %s::generate' % kind) == 'err':
            ev.res = 'err'
            return err(S('generr', kind, nm))
        ev.res = 'ok'
        ts = TS([('opaque', S('gen', kind, nm))])
        if kind in ('Function', 'Property'):
            p = adt_named(P, 'FunctionImplementation')
            vs = P.adts[p]['v']
            method = False
            if kind == 'Function':
                t = field(P, v, 'typ', 'function::Function')
                method = isinstance(t, Adt) and P.adts[t.p]['v'][t.v]['n'] == 'Method'
            else:
                t = field(P, v, 'owner', 'property::Property')
                method = isinstance(t, Adt) and P.adts[t.p]['v'][t.v]['n'] == 'Class'
            i = [j for j, x in enumerate(vs) if (x['n'] == 'Method') == method][0]
            if method:
                tm = struct(P, 'TraitMethod', None, trait_fn=TS([('opaque', S('gentrait', kind, nm))]), impl_fn=ts)
                return ok(Adt(p, i, [tm]))
            return ok(Adt(p, i, [ts]))
        return ok(ts)
    return h


def flat(ts):
    """all tokens of a stream, depth first"""
    for x in (ts.t if isinstance(ts, TS) else ts):
        yield x
        if isinstance(x, tuple) and x[0] == 'group':
            yield from flat(x[2])


def opaques(ts):
    return [x[1] for x in flat(ts) if isinstance(x, tuple) and x[0] == 'opaque']


def fmtdoc(I, args, ref, rt):
    """summary of utils::text::format_docstring: an opaque rewriting of the text (decided under C21)"""
    from models import smut
    if I.T[rt]['s'] == '()' if isinstance(rt, int) else True:
        return smut(I, args[0], lambda s: S('fmtdoc', s))
    return S('fmtdoc', sv(I, args[0]))


class GenPolicy(ParsePolicy):
    """generate side: names are valid identifiers unless stated otherwise"""
    def outcomes(self, path, ev):
        return ('ok',)


def gen_policy(P, fallible=True, kinds=tuple(SUBGEN), base=GenPolicy):
    class Pol(base):
        opaque_names = {SUBGEN[k][0] + '::generate': gen_summary(P, k, fallible) for k in kinds}
        opaque_names['format_docstring'] = fmtdoc

        def opaque(self, I, name, body, args):
            for tail, h in self.opaque_names.items():
                if name.endswith('::' + tail) and (I.frames or not tail.endswith('::generate')):
                    return h
            return None
    return Pol()
