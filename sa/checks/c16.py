"""C16 embedded source code is delivered under the module's own name"""
import json
from tree import *
import wmodels
from witness import Witness

S0, S1, S2 = S('SOURCE0'), S('SOURCE1'), S('SOURCE2')
# (requests, tree of every module: name -> submodules)
CASES = [
    [('str', 'a', S0)], [('str', 'a', S0), ('name', 'b')], [('name', 'b'), ('str', 'a', S0)], [('str', 'a.b', S0)], [('str', 'a.b', S0), ('name', 'a')],
    [('name', 'a'), ('str', 'a.b', S0)], [('str', 'a.b', S0), ('str', 'a', S1)], [('str', 'a', S1), ('str', 'a.b', S0)], [('str', 'type', S0)], [('str', 'p.type.match', S0)],
    [('str', 'a', S0), ('str', 'a.b.c', S1)], [('str', 'a.b', S0), ('str', 'b', S1)], [('str', 'a.b', S0), ('name', 'b')], [('str', 'b', S0), ('name', 'a.b')],
    [('name', 'a'), ('name', 'a.b')], [('str', 'a', S0), ('name', 'x', ['x.a'])], [('str', 'a', S0), ('name', 'a.x')], [('name', 'x', ['x.y']), ('str', 'x.y', S0)],
    [('str', 'a', S0), ('str', 'b', S1), ('str', 'c', S2)], [('str', 'a.b.c', S0), ('name', 'a', ['a.b', 'a.d'])], [('str', 'self', S0), ('str', 'crate.super', S1)],
    [('str', '_private', S0)], [('str', 'a', S0), ('str', 'a', S1)], [('str', 'a', S0), ('name', 'A')], [('str', 'a.b', S0), ('name', 'a_b')], [('str', 'r', S0), ('str', 'r.fn', S1)],
]


def entry(I, P, method, recv, *args):
    r = I.call_body(fn(P, 'Codegen::' + method), [recv] + list(args))
    if not (isinstance(r, Adt) and r.v == 0):
        raise Stop('entry point failed')
    return r.f[0]


class Stop(Exception):
    pass


def subs_summary(P, subs):
    """summary of Module::parse: the module of the Python object it is given, with the submodules of the scenario"""
    def h(I, args, ref, rt):
        o = [x for x in (I.deref(a) for a in args) if isinstance(x, Sym) and x.op in ('pymodule', 'codemodule')][0]
        I.event('parse', 'Module', (o,)).res = 'ok'
        nm = o.args[0]
        return ok(content(P, nm, 'm', [content(P, s, 's') for s in subs.get(nm, ())]))
    return h


def run(rep):
    P = program()
    M = contracts(P)
    new = fn(P, 'Codegen::new')
    for case in CASES:
        subs = {c[1]: c[2] for c in case if c[0] == 'name' and len(c) > 2}
        want = {}
        for c in case:
            if c[0] == 'str':
                want.setdefault(c[1], []).append(c[2])
        pol = tree_policy(P)
        pol.opaque_names = dict(pol.opaque_names)
        pol.opaque_names['module::Module::parse'] = subs_summary(P, subs)

        def r(path, case=case):
            I = Interp(P, path, M)
            cg = I.call_body(new, [cfg_with(P)])
            if isinstance(cg, Adt) and cg.p == RESULT:
                cg = cg.f[0]
            for c in case:
                cg = I.call_body(fn(P, 'Codegen::module_from_str'), [cg, c[2], c[1]]) if c[0] == 'str' else I.call_body(fn(P, 'Codegen::module_name'), [cg, c[1]])
                if cg.v != 0:
                    return cg
                cg = cg.f[0]
            return I.call_body(fn(P, 'Codegen::generate'), [cg])

        def j(L, path, o, case=case, want=want):
            what = ' '.join(c[0] + ':' + c[1] for c in case)
            if o[0] in ('undecided', 'stop'):
                return
            L.count('obligations')
            if not is_ok(o):
                L.violation('a module given as source code cannot be generated', '%s: %s %s' % (what, o[0], o[1]))
                return
            L.count('requests judged')
            fc = [e for e in path.events if e.kind == 'from_code']
            strs_ = [c for c in case if c[0] == 'str']
            if [(e.args[0], e.args[2]) for e in fc] != [(c[2], c[1]) for c in strs_]:
                L.violation('the source code is not executed under the name it was given', '%s: %s' % (what, [e.args for e in fc]))
            seen = {}
            for n in (x for r_ in roots_of(path) for x in r_.walk()):
                L.count('obligations')
                seen[n.name] = n.source
                if n.source is None:
                    continue
                if n.name not in want:
                    L.violation('a module that was not given as source code carries source code', '%s: %s has %s' % (what, n.name, n.source))
                elif n.source not in want[n.name]:
                    L.violation('a module carries the source code of another module', '%s: %s has %s' % (what, n.name, n.source))
            for m in want:
                if seen.get(m) is None:
                    L.violation('a module given as source code lost it', '%s: %s among %s' % (what, m, sorted(seen)))
            L.sample('%s -> %s' % (what, {k: str(v) for k, v in seen.items() if v is not None}))
        explore_all(rep, 'request ' + ' '.join(c[0] + ':' + c[1] for c in case), r, pol, j, budget_s=60)
    if not rep.cov.get('requests judged'):
        rep.violation('coverage: no request judged', '')
    template(rep, P, M)
    return dict(level='other',
                rule='For every listed sequence of module_from_str and module_name calls, on every abstract path from the first call to the output, from_code receives exactly the given (source, name) pairs, and in the generated module tree exactly the modules of those names carry exactly their source. The items Module::generate emits for a module with source, type-checked against pyo3 and lowered to MIR, execute exactly that source under exactly the dotted Python name of the module and store the result in sys.modules under that name on every successful path; without source no such function is emitted.',
                assumptions=['contracts in sa/models.py and sa/wmodels.py', 'the source code does not rename its own module', 'call sequences as listed; source texts are symbolic, names in the template are symbolic'],
                explanation='Abstract interpretation of the MIR of Codegen::{module_from_str, module_name, generate} and of the MIR of the generated embedding function (a type-level witness compiled with the driver).')


def template(rep, P, M):
    mg = fn(P, 'module::Module::generate')
    outs = []
    NM = [[S('nm', 'p')], [S('nm', 'p'), S('nm', 'q')], [S('nm', 'p'), S('nm', 'q'), S('nm', 'r')], ['a', 'type'], ['match'], ['type', 'fn', 'x']]
    for names in NM:
        for src in (None, S0):
            def r(path, names=names, src=src):
                return Interp(P, path, M).call_body(mg, [Ref([module(P, mk_path(P, names), source=src)]), Ref([cfg_with(P)]), Slice([]), Slice([])])

            def j(L, path, o, names=names, src=src):
                if is_ok(o):
                    outs.append((names, src, o[1].f[0]))
                elif o[0] == 'panic':
                    L.violation('Module::generate panics', o[1])
            explore_all(rep, 'Module::generate ' + '.'.join(map(str, names)), r, gen_policy(P, False), j, serial=True)
    W = Witness('c16')
    done = set()
    for names, src, ts in outs:
        W.add(W.src(ts.t), (names, src))
        done.add((tuple(map(str, names)), src))
    for names in NM:
        for src in (None, S0):
            if (tuple(map(str, names)), src) not in done:
                rep.violation('coverage: no output of Module::generate', '%s %s' % (names, src))
    for i, msgs in W.compile().items():
        rep.violation('the generated module does not compile', '%s: %s' % (W.items[i][1], msgs[:2]))
    Q = W.prog
    M2 = contracts(Q)
    for i, (_, (names, src)) in enumerate(W.items):
        if i in W.errors:
            continue
        rep.cov['obligations'] = rep.cov.get('obligations', 0) + 1
        fns = [b for b in Q.bodies.values() if b['kind'] == 'fn' and '::w%d::' % i in b['name'] + '::']
        emb = [b for b in fns if b['name'].rsplit('::', 1)[-1] == 'pyo3_embed_python_source_code']
        dotted = cat(*[x for k, n in enumerate(names) for x in (['.'] if k else []) + [n]])
        if src is None:
            if emb or any('from_code' in json.dumps(b) for b in fns):
                rep.violation('a module without source code has an embedding function', str(dotted))
            continue
        if len(emb) != 1:
            rep.violation('a module with source code lacks its embedding function', str(dotted))
            continue
        if W.items[i][0].split('pyo3_embed_python_source_code')[0].rstrip().split(' ')[-2:] != ['pub', 'fn']:
            rep.violation('the embedding function is not public', str(dotted))

        def r(path, b=emb[0]):
            return Interp(Q, path, M2).call_body(b, [models.PY])

        def j(L, path, o, dotted=dotted):
            if o[0] in ('undecided', 'stop'):
                return
            L.count('obligations')
            evs = path.events
            if o[0] == 'panic':
                L.violation('the embedding function panics', '%s: %s' % (dotted, o[1]))
                return
            bad = [e for e in evs if e.res == 'err']
            if is_ok(o) and bad:
                L.violation('the embedding function hides a failure', '%s: %s' % (dotted, bad[0].kind))
            if not is_ok(o):
                return
            L.d['cov']['embedding function succeeds'] = L.d['cov'].get('embedding function succeeds', 0) + 1
            fc = [tuple(W.decode(x) for x in e.args) for e in evs if e.kind == 'from_code']
            if [(x[0], x[2]) for x in fc] != [(S0, dotted)]:
                L.violation('the embedding function does not execute the source under the name of the module', '%s: %s' % (dotted, fc))
            reg = [e for e in evs if e.kind == 'setitem']
            mods = S('attr', S('pymodule', 'sys'), 'modules')
            if len(reg) != 1 or reg[0].args[0] is not mods or strip_pystr(W, reg[0].args[1]) != dotted or not str(reg[0].args[2]).startswith('codemodule'):
                L.violation('the embedding function does not register the module under its name in sys.modules', '%s: %s' % (dotted, [e.args for e in reg]))
            L.sample('%s: from_code%s; sys.modules[%s]' % (dotted, fc, strip_pystr(W, reg[0].args[1]) if reg else None))
        explore_all(rep, 'embedding function of ' + str(dotted), r, FailPolicy(), j)
    if rep.cov.pop('embedding function succeeds', 0) < len(NM):
        rep.violation('coverage: embedding function', '')


class FailPolicy(ParsePolicy):
    def outcomes(self, path, ev):
        return ('ok', 'err')


def strip_pystr(W, t):
    while isinstance(t, Sym) and t.op in ('pystr', 'ref') and len(t.args) == 1:
        t = t.args[0]
    return W.decode(t)
