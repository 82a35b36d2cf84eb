"""C17 a dotted module request is nested under all of its parents"""
from tree import *

REQ = [['a'], ['a.b'], ['a.b.c'], ['b.a'], ['a', 'a.b'], ['a.b', 'a'], ['a.b', 'a.c'], ['a.c', 'a.b'], ['a.b.c', 'a.b'], ['a.b', 'a.b.c'], ['b.x', 'a.x'],
       ['a.b', 'b'], ['b', 'a.b'], ['a.b.c.d'], ['a.b.c', 'a.x.c'], ['a.a.a'], ['a.a', 'a'], ['a.b', 'a.b'], ['x.y', 'x'], ['c', 'b', 'a.b'], ['a.b', 'a.c', 'a.d']]
MORE = [['a.b.c.d.e'], ['a.b.c', 'a.b.d', 'a.b'], ['a.z', 'a', 'a.b'], ['q.w.e', 'q', 'q.w'], ['a.b.c', 'a'], ['a', 'a.b.c'], ['b.b.b', 'b.b', 'b'], ['m.n', 'a.n', 'm.a', 'a.m']]


def run(rep):
    P = program()
    M = contracts(P)
    for req, sub in [(r, s) for r in REQ + (MORE if rep.tier == 'thorough' else []) for s in ((0, 1, 3) if len(r) > 1 else (0, 1))]:
        def mk(req=req, sub=sub):
            return [content(P, r, 't%d' % i, [content(P, r + '.zz', 'z%d' % i)] if sub >> (i % 2) & 1 else [], doc=S('doc', i)) for i, r in enumerate(req)]

        def judge(L, path, o, req=req, sub=sub):
            what = ', '.join(req)
            if o[0] in ('undecided', 'stop'):
                return
            if not is_ok(o):
                L.violation('generation fails for the request %s' % what, '%s %s' % (o[0], o[1]))
                return
            rs = roots_of(path)
            L.count('obligations')
            L.count('requests judged')
            shown = '; '.join(r.show() for r in rs)
            L.sample('request [%s] -> %s' % (what, shown))
            for r in rs:
                if '.' in r.name:
                    L.violation('a submodule remains at the top level', 'request [%s] gives the top-level module %s' % (what, r.name))
                for n in r.walk():
                    for s in n.subs:
                        L.count('obligations')
                        if s.name.rpartition('.')[0] != n.name:
                            L.violation('a module is nested in a module that is not its parent', 'request [%s]: %s in %s' % (what, s.name, n.name))
            for i, x in enumerate(req):
                segs = x.split('.')
                level, node = rs, None
                for k in range(1, len(segs) + 1):
                    L.count('obligations')
                    c = [n for n in level if n.name == '.'.join(segs[:k])]
                    if len(c) != 1:
                        L.violation('a dotted request is not nested under all of its parents', 'request [%s] gives %s: %d modules %s' % (what, shown, len(c), '.'.join(segs[:k])))
                        node = None
                        break
                    node = c[0]
                    level = node.subs
                if node is None:
                    continue
                for kind in list(KINDS) + ['prelude']:
                    L.count('obligations')
                    want = "'qt%d'" % i if kind == 'prelude' else '%s.%st%d' % (x, 'v' if kind == 'type_vars' else kind[0], i)
                    if want not in node.members[kind]:
                        L.violation('a requested module loses its %s' % kind, 'request [%s]: %s has %s' % (what, x, node.members[kind]))
                if sub >> (i % 2) & 1 and not [n for n in node.subs if n.name == x + '.zz' and '%s.zz.fz%d' % (x, i) in n.members['functions']]:
                    L.violation('a requested module loses a submodule', 'request [%s]: %s' % (what, shown))
                alone = req.count(x) == 1 and not any(y.startswith(x + '.') for y in req)
                if node.doc is not S('doc', i) if alone else node.doc is None:
                    L.violation('a requested module loses its documentation', 'request [%s]: %s has %r' % (what, x, node.doc))
            # nothing else appears
            allowed = {r + '.zz' for i, r in enumerate(req) if sub >> (i % 2) & 1} | {'.'.join(x.split('.')[:k]) for x in req for k in range(1, x.count('.') + 2)}
            for r in rs:
                for n in r.walk():
                    if n.name not in allowed:
                        L.violation('a module appears that is neither requested nor a parent of one', 'request [%s]: %s' % (what, n.name))
        for fail in (False, True):
            explore_all(rep, 'request ' + ', '.join(req) + (' with submodules %d' % sub if sub else '') + (' (parents not importable)' if fail else ''), run_generate(P, M, mk), tree_policy(P, parents_fail=fail), judge, budget_s=60)
    if not rep.cov.get('requests judged'):
        rep.violation('coverage: no request judged', '')
    # the code of a module is emitted inside `pub mod <last segment>`
    mg = fn(P, 'module::Module::generate')

    def r(path, **kw):
        return Interp(P, path, M).call_body(mg, [Ref([module(P, P_(P, 'a.b'), functions=[function(P, P_(P, 'a.b.f'))], submodules=[module(P, P_(P, 'a.b.c'))])]), Ref([cfg_with(P, **kw)]), Slice([]), Slice([])])

    def j(L, path, o):
        L.count('obligations')
        if not is_ok(o):
            if o[0] != 'undecided':
                L.violation('Module::generate fails', '%s %s' % (o[0], o[1]))
            return
        L.d['cov']['module body'] = 1
        m = in_mod(o[1].f[0].t)
        inside = [a for n, g in m for a in opaques(g) if a.op == 'gen' and a.args[0] == 'Module']
        if len(m) != 1 or repr(m[0][0]).strip("'") != 'b' or len(inside) != 1 or len([a for a in opaques(o[1].f[0]) if a.op == 'gen' and a.args[0] == 'Module']) != 1:
            L.violation('the submodules of a module are not emitted inside `pub mod` of its own name', repr(o[1].f[0]))
    # the chain of parents is needed whatever is switched off
    flags = [f for f in fields(P, 'config::Config') if f.startswith(('generate', 'traverse'))]
    for kw in [{}] + [{f: f == 'generate_dependencies'} for f in flags] + [{f: False for f in flags}]:
        explore_all(rep, 'Module::generate' + ''.join(', %s=%s' % x for x in kw.items()), lambda path, kw=kw: r(path, **kw), gen_policy(P, False), j)
    if not rep.cov.pop('module body', 0):
        rep.violation('coverage: Module::generate', '')
    return dict(level='other',
                rule='For every listed set of dotted requests, on every abstract path of Codegen::generate (parents importable or not) the module trees handed to Module::generate have single-segment roots, each child is directly inside the module named by its prefix, each requested module is reached along exactly one chain of its prefixes, and it keeps every member; Module::generate emits members and submodules inside `pub mod <last segment>`.',
                assumptions=['contracts in sa/models.py', 'request sets as listed (depth up to 4 in the quick, 5 in the thorough tier); names are concrete'],
                explanation='Abstract interpretation of the MIR of Codegen::generate (canonicalize, merge) over module trees with labelled members.')


def in_mod(toks):
    """[(name, body tokens)] of `mod name { .. }` at this level"""
    out = []
    for i, x in enumerate(toks):
        if x == 'mod' and i + 2 < len(toks) and isinstance(toks[i + 2], tuple) and toks[i + 2][0] == 'group':
            n = toks[i + 1]
            out.append((n[1] if isinstance(n, tuple) else n, toks[i + 2][2]))
    return out
