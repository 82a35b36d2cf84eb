"""Module trees with concrete names and labelled content: what Codegen::generate makes of them."""
from gencg import *

KINDS = {'classes': 'class::Class', 'functions': 'function::Function', 'properties': 'property::Property', 'type_vars': 'type_var::TypeVar', 'imports': 'import::Import'}


def P_(P, dotted):
    return mk_path(P, dotted.split('.'))


def content(P, name, tag, subs=(), source=None, doc=None, shared=()):
    """module `name` with one member of each kind, named after `tag`; `shared`: tags of members that equal those of other copies"""
    tags = [tag] + list(shared) if tag else list(shared)
    q = lambda k: [(P_(P, '%s.%s%s' % (name, k, t)), t) for t in tags]
    return module(P, P_(P, name), doc=doc, source=source, prelude=['q' + t for t in tags], submodules=list(subs),
                  classes=[klass(P, p) for p, t in q('c')], functions=[function(P, p) for p, t in q('f')], properties=[prop(P, p, 'Module') for p, t in q('p')],
                  type_vars=[typevar(P, p) for p, t in q('v')], imports=[import_(P, P_(P, name + '.o' + t), p) for p, t in q('i')])


def strs(ns):
    return '.'.join(x if isinstance(x, str) else repr(x) for x in ns)


class Node:
    def __init__(self, I, P, m):
        m = I.deref(m)
        self.name = strs(path_names(I, field(P, m, 'name', 'module::Module')))
        self.subs = [Node(I, P, x) for x in list_of(I, field(P, m, 'submodules', 'module::Module'))]
        self.members = {}
        for k, tail in KINDS.items():
            self.members[k] = sorted(strs(path_names(I, field(P, I.deref(x), 'target' if k == 'imports' else 'name', tail))) for x in list_of(I, field(P, m, k, 'module::Module')))
        self.members['prelude'] = sorted(repr(env.py_name(I.deref(x).f[0])) for x in list_of(I, field(P, m, 'prelude', 'module::Module')))
        s = field(P, m, 'source_code', 'module::Module')
        self.source = s.f[0] if isinstance(s, Adt) and s.v == 1 else None if isinstance(s, Adt) else s
        d = field(P, m, 'docstring', 'module::Module')
        self.doc = d.f[0] if isinstance(d, Adt) and d.v == 1 else None if isinstance(d, Adt) else d

    def walk(self):
        yield self
        for s in self.subs:
            yield from s.walk()

    def show(self):
        return self.name + ('[' + ', '.join(s.show() for s in self.subs) + ']' if self.subs else '')


def gen_capture(prog):
    """summary of Module::generate that keeps the module tree it is called for"""
    def h(I, args, ref, rt):
        n = Node(I, prog, args[0])
        ev = I.event('generate', 'Module', (n.name,))
        ev.extra = n
        ev.res = 'ok'
        return ok(TS([('opaque', S('gen', S('names', n.name)))]))
    return h


class TreePolicy(ParsePolicy):
    def outcomes(self, path, ev):
        # parents of the modules may or may not be importable
        return ('ok', 'err') if ev.kind == 'import' and self.parents_fail else ('ok',)

    parents_fail = False

    def segments(self, path, s):
        return (1,)

    def lengths(self, path, s):
        return (0,)


def tree_policy(P, **kw):
    p = TreePolicy()
    p.opaque_names = {'module::Module::parse': module_summary(P), 'module::Module::generate': gen_capture(P)}
    for k, v in kw.items():
        setattr(p, k, v)
    return p


def run_generate(P, M, mk, embedded=None):
    body = fn(P, 'Codegen::generate')

    def r(path):
        I = Interp(P, path, M)
        return I.call_body(body, [codegen_value(P, cfg_with(P), mk(), embedded() if embedded else None)])
    return r


def roots_of(path):
    """module trees that reach the output"""
    return [e.extra for e in path.events if e.kind == 'generate']
