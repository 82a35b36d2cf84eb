"""Symbolic inputs and summaries for the engine's parse side, shared by the checks."""
from lib import *
from models import list_of, sv

E = 'pyo3_bindgen_engine'


def adt_named(prog, tail):
    r = [p for p in prog.adts if p.endswith('::' + tail) and prog.adts[p]['local'] in (True, 1, 'true')]
    if not r:
        raise Missing('type ' + tail)
    return sorted(r, key=len)[0]


def fields(prog, tail, variant=0):
    return prog.adts[adt_named(prog, tail)]['v'][variant]['f']


def field(prog, v, name, tail):
    """field `name` of a struct value (concrete or symbolic)"""
    fs = fields(prog, tail)
    if name not in fs:
        raise Missing('field %s of %s' % (name, tail))
    i = fs.index(name)
    return v.f[i] if isinstance(v, Adt) else S('f', v, i)


def struct(prog, tail, default_=None, **kw):
    p = adt_named(prog, tail)
    fs = prog.adts[p]['v'][0]['f']
    miss = [k for k in kw if k not in fs]
    if miss:
        raise Missing('field %s of %s' % (miss[0], tail))
    return Adt(p, 0, [kw[f] if f in kw else default_(f) for f in fs])


def enum(prog, tail, variant, *f):
    p = adt_named(prog, tail)
    for i, v in enumerate(prog.adts[p]['v']):
        if v['n'] == variant:
            return Adt(p, i, list(f))
    raise Missing('variant %s of %s' % (variant, tail))


def variant_name(prog, v):
    return prog.adts[v.p]['v'][v.v]['n']


def mk_ident(prog, rs):
    return Adt(env.ident_of(prog), 0, [rs])


def mk_path(prog, names, leading=False):
    """Path of Python names (terms or strings)"""
    return Adt(env.path_of(prog), 0, [leading, Lst([mk_ident(prog, env.rs_name(_P(), n) if isinstance(n, str) else S('rs', n)) for n in names])])


class _P:
    class path:
        @staticmethod
        def val(n):
            return n


def path_names(I, p):
    """Python names of a Path value"""
    p = I.deref(p)
    if isinstance(p, Sym):
        xs = list_of(I, S('f', p, 1))
    else:
        xs = list_of(I, p.f[1])
    out = []
    for x in xs:
        x = I.deref(x)
        s = x.f[0] if isinstance(x, Adt) else S('f', x, 0)
        n = env.py_name(s)
        out.append(n if n is not None else S('py', s))
    return out


CFG_FLAGS = ('traverse_submodules', 'generate_preludes', 'generate_imports', 'generate_classes', 'generate_type_vars',
             'generate_functions', 'generate_properties', 'generate_docs', 'include_private', 'generate_dependencies',
             'suppress_python_stdout', 'suppress_python_stderr')


def sym_cfg(prog):
    """a configuration of which nothing is known: every field is its own provenance term"""
    return struct(prog, 'config::Config', lambda f: S('cfg', f))


def cfg_with(prog, **kw):
    return struct(prog, 'config::Config', lambda f: kw.get(f, True if f.startswith(('generate', 'traverse')) and f != 'generate_dependencies' else
                                                           Lst([]) if f == 'blocklist_names' else False))


def summary_parser(prog, tail, rep_name):
    """summary of a sub-parser: records its arguments; yields an item carrying the name it was given, or an error"""
    fs = fields(prog, tail)

    def handler_for(name):
        def h(I, args, ref, rt):
            path_arg = None
            for a in args:
                v = I.deref(a)
                if isinstance(v, Adt) and v.p == env.path_of(I.P):
                    path_arg = v
            obj = None
            for a in args:
                v = I.deref(a)
                if isinstance(v, Sym) and v.op != 'cfg' and obj is None:
                    obj = v
            ev = I.event('parse', rep_name, (obj,) + tuple(args))
            ev.extra = args
            if I.path.split(('ok', 'err'), 'result of %s::parse' % rep_name) == 'err':
                ev.res = 'err'
                return err(S('suberr', rep_name, obj))
            ev.res = 'ok'
            n = len(I.path.events)
            item = Adt(adt_named(I.P, tail), 0, [S('item', rep_name, f, n) for f in fs])
            item.f[fs.index('name')] = models.clone(I, path_arg)
            return ok(item)
        return h
    return handler_for


def module_summary(prog):
    """summary of the recursive Module::parse: an unknown module named after the Python object"""
    def h(I, args, ref, rt):
        objs = [I.deref(a) for a in args]
        obj = [o for o in objs if isinstance(o, Sym)][0]
        ev = I.event('parse', 'Module', (obj,))
        ev.extra = args
        if I.path.split(('ok', 'err'), 'result of Module::parse') == 'err':
            ev.res = 'err'
            return err(S('suberr', 'Module', obj))
        ev.res = 'ok'
        fs = fields(I.P, 'module::Module')
        m = Adt(adt_named(I.P, 'module::Module'), 0, [Lst([]) if f in VECS else S('item', 'Module', f, obj) for f in fs])
        m.f[fs.index('name')] = mk_path(I.P, [S('modname', obj)])
        return ok(m)
    return h


def type_summary(I, args, ref, rt):
    """summary of Type::try_from(object) and from_typing: the type that stands for this object (decided under C13)"""
    o = models.pobj(I, args[0])
    ev = I.event('type', '', (o,))
    if 'err' in I.policy.outcomes(I.path, ev) and I.path.split(('ok', 'err'), 'result of Type::try_from') == 'err':
        ev.res = 'err'
        return err(S('typeerr', o))
    ev.res = 'ok'
    return ok(S('type', o))


TYPE_FROM = 'typing::Type>::try_from'
VECS = ('prelude', 'imports', 'submodules', 'classes', 'type_vars', 'functions', 'properties')


class ParsePolicy(env.EnginePolicy):
    """inputs of the parse side: one attribute, dotted names of up to two segments, two blocklist entries"""
    nattr = (1,)
    opaque_names = {}

    def lengths(self, path, s):
        if s is S('cfg', 'blocklist_names'):
            return (2,)
        if isinstance(s, Sym) and s.op == 'dir':
            return self.nattr
        return (1,)

    def opaque(self, I, name, body, args):
        for tail, h in self.opaque_names.items():
            if name.endswith(tail) and (I.frames or not tail.startswith('module::Module::parse')):
                return h
        return None
