"""C06 a failed import, parse, generation or write is reported as an error"""
from gencg import *

FAIL = ('import', 'from_code', 'parse', 'generate', 'fs_write', 'fs_open', 'write', 'dir')


def run(rep):
    P = program()
    M = contracts(P)

    class Pol(ParsePolicy):
        opaque_names = {'module::Module::parse': module_summary(P), 'module::Module::generate': generate_summary(P)}

        def outcomes(self, path, ev):
            return ('ok', 'err')

        def segments(self, path, s):
            return (1,)

        def lengths(self, path, s):
            return (0,) if s is S('cfg', 'blocklist_names') else (0, 1, 2)
    old = lambda: empty_module(P, name=mk_path(P, [S('a'), S('b')]), imports=Lst([external_import(P)]))
    old2 = lambda: empty_module(P, name=mk_path(P, [S('c')]))

    def failures(path, gen):
        # the imports made while generating are those of dependencies and of parent packages: both best effort
        return [e for e in path.events if e.res == 'err' and e.kind in FAIL and not (gen and e.kind in ('import', 'dir'))]

    def names_of(L, path, cg):
        I = Interp(P, path, M)
        return [path_names(I, field(P, m, 'name', 'module::Module')) for m in list_of(I, field(P, cg, 'modules', 'codegen::Codegen'))]

    def judge_for(what, requested, kept, final=None):
        def judge(L, path, o):
            fs = failures(path, what in ('Codegen::generate', 'Codegen::build'))
            L.count('obligations')
            if o[0] in ('undecided', 'stop'):
                return
            if fs:
                L.d['cov']['reach failing ' + what + '/' + fs[0].kind] = 1
                if not is_err(o):
                    L.violation('%s: a failed %s is not reported as an error' % (what, fs[0].kind),
                                '%s %s fails on a path that ends with %s' % (fs[0].kind, fs[0].name, 'a panic' if o[0] == 'panic' else 'Ok'))
                return
            if is_ok(o):
                L.d['cov']['reach ok ' + what] = 1
                if final:
                    final(L, path, o)
                else:
                    got = names_of(L, path, o[1].f[0])
                    for r in requested:
                        L.count('obligations')
                        if not any(len(g) == 1 and (g[0] is r or same_object(path, g[0], r)) for g in got):
                            L.violation('%s: succeeds without a requested module' % what, 'requested %r, modules of the result %r' % (r, got))
                    for k in kept:
                        if k not in got:
                            L.violation('%s: loses a module that was added before' % what, 'modules of the result: %r' % (got,))
            L.sample('%s: %s -> %s' % (what, [e.kind + ('!' if e.res == 'err' else '') for e in path.events], o[0] + (':' + ('Ok' if is_ok(o) else 'Err'))))
        return judge

    def same_object(path, g, r):
        """g is the name of the module that request r stands for"""
        if not (isinstance(g, Sym) and g.op == 'modname'):
            return False
        ob = g.args[0]
        if ob is r:
            return True
        if isinstance(ob, Sym) and ob.op in ('pymodule', 'codemodule'):
            return any(a is r or path.known(mk_eq(a, r)) is True for a in ob.args)
        return False

    def go(what, tail, mkargs, requested, pre, final=None, nopre_err=False):
        body = fn(P, 'Codegen::' + tail)

        def r(path):
            I = Interp(P, path, M)
            return I.call_body(body, [codegen_value(P, sym_cfg(P), [f() for f in pre])] + mkargs())
        kept = [[S('a'), S('b')], [S('c')]][:len(pre)]
        explore_all(rep, what, r, Pol(), judge_for(what, requested, kept, final), budget_s=120)
    n = [S('n0'), S('n1'), S('n2')]
    k = 2 if rep.tier == 'quick' else 3
    go('Codegen::module', 'module', lambda: [Ref([S('m')])], [S('m')], [old, old2])
    go('Codegen::module_name', 'module_name', lambda: [S('n0')], n[:1], [old, old2])
    go('Codegen::module_from_str', 'module_from_str', lambda: [S('src'), S('n0')], n[:1], [old, old2])
    go('Codegen::module_names', 'module_names', lambda: [Slice(n[:k])], n[:k], [old])
    go('Codegen::modules', 'modules', lambda: [Slice([S('m0'), S('m1'), S('m2')][:k])], [S('m0'), S('m1'), S('m2')][:k], [old])

    def roots(path):
        out = []
        for e in path.events:
            if e.kind == 'parse' and e.res == 'ok':
                out.append([S('modname', e.args[0])])
        return out

    def final_gen(L, path, o, pre):
        ts = o[1].f[0]
        got = [a.args[0].args for a in opaques(ts)]
        want = [tuple(x) for x in pre] + [tuple(x) for x in roots(path)]
        L.count('obligations', len(want))
        for w in want:
            if not any(len(g) == 1 and (g[0] is w[0] or path.known(mk_eq(g[0], w[0])) is True) for g in got):
                L.violation('Codegen::generate: succeeds without the bindings of a module', 'missing %r in %r' % (w, got))
    go('Codegen::generate', 'generate', lambda: [], [], [old, old2], lambda L, path, o: final_gen(L, path, o, [[S('a')], [S('c')]]))
    rep.cov.pop('reach ok Codegen::generate(empty)', None)

    def none_ok(what):
        def f(L, path, o):
            L.violation('%s: succeeds without any module' % what, '')
        return f

    def go_empty(what, tail, mkargs):
        body = fn(P, 'Codegen::' + tail)

        def r(path):
            I = Interp(P, path, M)
            return I.call_body(body, [codegen_value(P, sym_cfg(P), [])] + mkargs())

        def j(L, path, o):
            L.count('obligations')
            if not is_err(o):
                L.violation('%s without any module is not reported as an error' % what, 'outcome %s' % o[0])
            if any(e.kind == 'fs_write' for e in path.events):
                L.violation('%s without any module writes a file' % what, '')
        explore_all(rep, what + ' of nothing', r, Pol(), j)
    go_empty('Codegen::generate', 'generate', lambda: [])
    go_empty('Codegen::build', 'build', lambda: [S('outpath')])

    def final_build(L, path, o):
        w = [e for e in path.events if e.kind in ('fs_write', 'write') and e.res == 'ok']
        want = S('ts', render([('opaque', S('gen', S('names', S('c'))))]))
        if len(w) != 1 or (w[0].args[1] if w[0].kind == 'fs_write' else w[0].args[0]) is not want:
            L.violation('Codegen::build: succeeds without writing exactly the generated bindings', 'writes %r' % ([e.args for e in w],))
        opened = [e.args[0] for e in path.events if e.kind in ('fs_write', 'fs_open')]
        if any(p not in (S('outpath'), S('str', S('outpath'))) for p in opened):
            L.violation('Codegen::build: writes to another file than requested', repr(opened))
    body = fn(P, 'Codegen::build')

    def rb(path):
        I = Interp(P, path, M)
        cfg = cfg_with(P)
        return I.call_body(body, [codegen_value(P, cfg, [old2()]), S('outpath')])
    explore_all(rep, 'Codegen::build', rb, Pol(), judge_for('Codegen::build', [], [], final_build), budget_s=100)

    # parsing of a module and a class: a member that fails to parse fails the whole
    class Pol2(ParsePolicy):
        opaque_names = {'class::Class::parse': summary_parser(P, 'class::Class', 'Class')(''),
                        'function::Function::parse': summary_parser(P, 'function::Function', 'Function')(''),
                        'property::Property::parse': summary_parser(P, 'property::Property', 'Property')(''),
                        'module::Module::parse': module_summary(P)}

        def outcomes(self, path, ev):
            if ev.kind in ('dir',):
                return ('ok', 'err')
            if ev.kind == 'import' and isinstance(ev.args[0], Sym):
                return ('ok', 'err')
            return ('ok',)

        def segments(self, path, s):
            return (1,)

        def lengths(self, path, s):
            if isinstance(s, Sym) and s.op == 'dir':
                return (1,)
            if s is S('cfg', 'blocklist_names'):
                return (0,)
            return (1,)
    def judge_parse(what, kinds):
        def judge(L, path, o):
            L.count('obligations')
            fs = [e for e in path.events if e.res == 'err' and e.kind in ('parse', 'dir')]
            pr = [e for e in path.events if e.kind == 'parse']
            if o[0] in ('undecided', 'stop'):
                return
            for e in fs:
                L.d['cov']['reach failing %s/%s %s' % (what, e.kind, e.name if e.kind == 'parse' else '')] = 1
                if not is_err(o):
                    L.violation('%s: a failed %s of a %s is not reported as an error' % (what, e.kind, e.name if e.kind == 'parse' else 'module'), 'the path ends with %s' % ('a panic' if o[0] == 'panic' else 'Ok'))
                    return
            # an importable submodule that is not overwritten by an import is parsed
            if not is_ok(o):
                return
            m = o[1].f[0]
            n = {'Class': 'classes', 'Module': 'submodules'} if what == 'Module::parse' else {}
            I = Interp(P, path, M)
            for e in pr:
                if e.res != 'ok':
                    continue
                L.count('obligations')
                tail = 'module::Module' if what == 'Module::parse' else 'class::Class'
                vecs = [v for v in VECS if v not in ('prelude', 'imports')] if what == 'Module::parse' else ['methods', 'properties']
                tot = sum(len(list_of(I, field(P, m, v, tail))) for v in vecs)
                if not tot:
                    L.violation('%s: succeeds without a member that was parsed' % what, '%s %r' % (e.name, e.args[0]))
        return judge

    mp, cp = fn(P, 'module::Module::parse'), fn(P, 'class::Class::parse')

    def run_m(pkg):
        def r(path):
            path.assume(S('hasattr', S('mod'), '__path__'), pkg)
            I = Interp(P, path, M)
            return I.call_body(mp, [Ref([cfg_with(P, generate_preludes=False, include_private=True)]), Ref([S('mod')])])
        return r

    class Pol2k(Pol2):
        def lengths(self, path, s):
            if isinstance(s, Sym) and s.op == 'dir':
                return (0,)
            return Pol2.lengths(self, path, s)
    explore_all(rep, 'Module::parse members', run_m(False), Pol2(), judge_parse('Module::parse', None))
    explore_all(rep, 'Module::parse submodules', run_m(True), Pol2k(), judge_parse('Module::parse', None))

    def run_c(path):
        I = Interp(P, path, M)
        return I.call_body(cp, [Ref([cfg_with(P, include_private=True)]), Ref([S('cls')]), mk_path(P, [S('owner'), S('clsname')])])
    explore_all(rep, 'Class::parse', run_c, Pol2(), judge_parse('Class::parse', None))

    # generation of a module and a class: an item that fails to generate fails the whole
    mg, cgn = fn(P, 'module::Module::generate'), fn(P, 'class::Class::generate')
    pol = gen_policy(P)
    mpath = lambda x: mk_path(P, [S('nm', 'm'), S('nm', x)])

    def run_mg(path):
        I = Interp(P, path, M)
        m = module(P, mk_path(P, [S('nm', 'm')]), imports=[import_(P, mpath('io'), mpath('i1'))], submodules=[module(P, mpath('s1'), classes=[klass(P, mpath('io'))])],
                   classes=[klass(P, mpath('c1')), klass(P, mpath('c2'))], type_vars=[typevar(P, mpath('v1'))],
                   functions=[function(P, mpath('f1')), function(P, mpath('f2'))], properties=[prop(P, mpath('p1'), 'Module'), prop(P, mpath('p2'), 'Module')])
        return I.call_body(mg, [Ref([m]), Ref([cfg_with(P)]), Slice([m]), Slice([])])

    def run_cg(path):
        I = Interp(P, path, M)
        c = klass(P, mpath('c1'), methods=[function(P, mk_path(P, [S('nm', 'm'), S('nm', 'c1'), S('nm', x)]), k, mpath('c1')) for x, k in (('f1', 'InstanceMethod'), ('f2', 'Constructor'))],
                  properties=[prop(P, mk_path(P, [S('nm', 'm'), S('nm', 'c1'), S('nm', x)])) for x in ('p1', 'p2')])
        return I.call_body(cgn, [Ref([c]), Ref([cfg_with(P)]), Ref([HMap(False, 'Fx')])])

    def judge_gen(what):
        def judge(L, path, o):
            L.count('obligations')
            if o[0] in ('undecided', 'stop'):
                return
            fs = [e for e in path.events if e.kind == 'generate' and e.res == 'err']
            for e in fs:
                L.d['cov']['reach failing %s/generate %s' % (what, e.name)] = 1
            if fs and not is_err(o):
                L.violation('%s: a failed %s::generate is not reported as an error' % (what, fs[0].name), 'the path ends with %s' % o[0])
        return judge
    explore_all(rep, 'Module::generate', run_mg, pol, judge_gen('Module::generate'))
    explore_all(rep, 'Class::generate', run_cg, pol, judge_gen('Class::generate'))

    # the macro
    Q = program('pyo3_bindgen_macros')
    MQ = contracts(Q)
    imp = fn(Q, '::import_python')

    class PolQ(ParsePolicy):
        def outcomes(self, path, ev):
            return ('ok', 'err') if ev.kind == 'engine' else ('ok',)

    def rq(path):
        return Interp(Q, path, MQ).call_body(imp, [S('input')])

    def jq(L, path, o):
        L.count('obligations')
        if any(e.kind == 'engine' and e.res == 'err' for e in path.events):
            L.d['cov']['reach failing macro'] = 1
            if o[0] == 'ret' and 'compile_error' not in repr(o[1]):
                L.violation('the import macro expands successfully although the engine reported an error', '')
        elif o[0] == 'ret' and any(e.kind == 'engine' and e.name == 'generate' for e in path.events):
            if opaques(o[1] if isinstance(o[1], TS) else TS([])) != [S('bindings', S('cg', S('f', S('macroargs'), 0)))] and 'bindings' not in repr(o[1]):
                L.violation('the import macro expands to something else than the bindings', repr(o[1]))
    explore_all(rep, 'import_python', rq, PolQ(), jq)
    need = ['reach failing ' + x for x in (
        'Codegen::module/parse', 'Codegen::module_name/import', 'Codegen::module_name/parse', 'Codegen::module_from_str/from_code', 'Codegen::module_from_str/parse',
        'Codegen::module_names/import', 'Codegen::modules/parse', 'Codegen::generate/parse', 'Codegen::generate/generate', 'Codegen::build/fs_write', 'Codegen::build/generate',
        'Module::parse/dir ', 'Module::parse/parse Class', 'Module::parse/parse Function', 'Module::parse/parse Property', 'Module::parse/parse Module',
        'Class::parse/parse Function', 'Class::parse/parse Property',
        'Module::generate/generate Import', 'Module::generate/generate TypeVar', 'Module::generate/generate Class', 'Module::generate/generate Function',
        'Module::generate/generate Property', 'Module::generate/generate Module', 'Class::generate/generate Function', 'Class::generate/generate Property', 'macro')]
    for x in need + ['reach ok Codegen::' + y for y in ('module', 'module_name', 'module_from_str', 'module_names', 'modules', 'generate', 'build')]:
        if not rep.cov.pop(x, 0):
            rep.violation('coverage: no path with: ' + x[6:], 'the analysis reaches no such path, so this obligation was not examined')
    for x in [x for x in rep.cov if x.startswith('reach ')]:
        rep.cov.pop(x)
    return dict(level='other',
                rule='On every abstract path of an entry point on which a requested import, from_code, parse, generate or write step fails, the result is Err; on every Ok path every requested module (and every earlier one) is in the result. The same holds for the member parsers within Module::parse and Class::parse and for the item generators within Module::generate and Class::generate. No module at all: Err.',
                assumptions=['contracts in sa/models.py for std, itertools and pyo3', 'sub-steps are represented by summaries that either succeed or fail', 'best effort by design: imports of dependencies, submodules overwritten by an attribute of the same name'],
                explanation='Failure-propagation analysis over all abstract MIR paths with every step independently succeeding or failing.')
