"""C07 the Python interpreter is initialised before it is used"""
from cg import *

USES = ('with_gil', 'import', 'getattr', 'hasattr', 'setattr', 'getitem', 'pycall', 'eval', 'from_code', 'dir', 'iter', 'to_str', 'parse', 'engine')


class Pol(ParsePolicy):
    def outcomes(self, path, ev):
        return ('ok', 'err')

    def segments(self, path, s):
        return (1, 2)

    def lengths(self, path, s):
        return (0,) if s is S('cfg', 'blocklist_names') else (0, 1, 2)


def run(rep):
    P = program()
    M = contracts(P)

    class EPol(Pol):
        opaque_names = {'module::Module::parse': module_summary(P), 'module::Module::generate': generate_summary(P)}
    mod1 = lambda: empty_module(P, name=mk_path(P, [S('a'), S('b')]), imports=Lst([external_import(P)]))

    def initialised(what):
        def judge(L, path, o):
            L.count('obligations')
            init = False
            for e in path.events:
                if e.kind == 'init_python':
                    init = True
                    L.count('initialisations seen')
                elif e.kind in USES and not init:
                    if e.kind == 'engine':
                        continue
                    L.violation('%s uses Python before it initialised the interpreter' % what, 'a path reaches %s %s without prepare_freethreaded_python before it' % (e.kind, e.name))
                    return
                elif e.kind in ('with_gil', 'import'):
                    L.d['cov']['uses of Python after initialisation'] = 1
            L.sample('%s: %s' % (what, [e.kind for e in path.events][:6]))
        return judge

    def untouched(what):
        def judge(L, path, o):
            L.count('obligations')
            bad = [e for e in path.events if e.kind in USES]
            init = [i for i, e in enumerate(path.events) if e.kind == 'init_python']
            if bad and not (init and init[0] < path.events.index(bad[0])):
                L.violation('%s touches Python although no module is present' % what, 'event %s %s' % (bad[0].kind, bad[0].name))
        return judge
    cases = []
    gil = 'with a module present'
    cfg = sym_cfg(P)
    for w, args in (('module_name', lambda: [S('n0')]), ('module_from_str', lambda: [S('src'), S('n0')])):
        for ms in ((),):   # a module that is already present proves an initialised interpreter
            cases.append((w, (lambda w=w, args=args, ms=ms: (fn(P, 'Codegen::' + w), [codegen_value(P, cfg, [mod1()] if ms else [])] + args())), initialised('Codegen::' + w)))
    cases.append(('module_names', lambda: (fn(P, 'Codegen::module_names'), [codegen_value(P, cfg), Slice([S('n0'), S('n1')])]), initialised('Codegen::module_names')))
    cases.append(('module_names of nothing', lambda: (fn(P, 'Codegen::module_names'), [codegen_value(P, cfg), Slice([])]), untouched('Codegen::module_names([])')))
    cases.append(('generate of nothing', lambda: (fn(P, 'Codegen::generate'), [codegen_value(P, cfg)]), untouched('Codegen::generate')))
    cases.append(('build of nothing', lambda: (fn(P, 'Codegen::build'), [codegen_value(P, cfg), S('outpath')]), untouched('Codegen::build')))
    cases.append(('new', lambda: (fn(P, 'Codegen::new'), [cfg]), untouched('Codegen::new')))
    for w, a in (('generate', lambda: []), ('build', lambda: [S('outpath')])):
        cases.append((w, (lambda w=w, a=a: (fn(P, 'Codegen::' + w), [codegen_value(P, cfg, [mod1()])] + a())), None))
    for name, mkc, judge in cases:
        body, _ = mkc()

        def r(path, mkc=mkc):
            I = Interp(P, path, M)
            b, a = mkc()
            return I.call_body(b, a)
        if judge is None:
            continue
        explore_all(rep, name, r, EPol(), judge, budget_s=100)
    if not rep.cov.pop('uses of Python after initialisation', 0):
        rep.violation('coverage: no entry point uses Python', '')

    # every public function of the engine that acquires the GIL or runs the interpreter is one of the entry points above,
    # or receives a GIL token / bound object / non-empty Codegen
    covered = {'module_name', 'module_from_str', 'module_names', 'generate', 'build'}
    gil = set()
    for b, t, n in callsites(P, lambda n: n.endswith('Python::<\'py>::with_gil') or n.endswith('::with_gil') or 'GILGuard' in n):
        gil.add(root_name(b['name']))
        rep.count('GIL acquisitions in the engine')
    # callers, transitively, up to public entry points
    callers = {}
    for b, t, n in callsites(P, lambda n: n in P.byname):
        callers.setdefault(root_name(n), set()).add(root_name(b['name']))
    todo, seen = list(gil), set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += [c for c in callers.get(x, ()) if c != x]
    for x in sorted(seen):
        b = P.byname.get(x)
        if b is None or b.get('vis') != 'reachable':
            continue
        tail = x.split('::')[-1]
        rep.count('public functions that acquire the GIL')
        if not ('Codegen::' in x and tail in covered | {'modules'}):
            if not any('marker::Python<' in s or 'instance::Bound<' in s for s in (P.types[i]['s'] for i in b['locals'][1:b['argc'] + 1])):
                rep.violation('public function %s acquires the GIL without initialising the interpreter' % x, 'it is not among the entry points checked for initialisation')

    # the macro
    Q = program('pyo3_bindgen_macros')
    MQ = contracts(Q)
    imp = fn(Q, '::import_python')

    def rm(path):
        I = Interp(Q, path, MQ)
        return I.call_body(imp, [S('input')])

    def jm(L, path, o):
        L.count('obligations', 2)
        init = False
        for i, e in enumerate(path.events):
            if e.kind == 'init_python':
                init = True
            elif e.kind in ('with_gil', 'import', 'getattr', 'pycall', 'to_str') and not init:
                L.violation('the import macro uses Python before it initialised the interpreter', '%s %s' % (e.kind, e.name))
                break
            elif e.kind == 'engine' and e.name.startswith('module'):
                L.d['cov']['macro reaches the engine'] = 1
                pre = path.events[:i]
                dl = [x for x in pre if x.kind == 'dlopen']
                failed = [x for x in pre if x.res == 'err' and x.kind in ('import', 'getattr', 'pycall', 'to_str', 'cstring')]
                if not dl and not failed:
                    L.violation('the import macro imports a module without loading the libpython symbols first', 'events before: %s' % [x.kind for x in pre])
                for d in dl:
                    fl = d.args[1] if len(d.args) > 1 else None
                    if not (isinstance(fl, int) and fl & 0x100):
                        L.violation('the import macro does not load libpython with RTLD_GLOBAL', 'dlopen flags %r' % (fl,))
                    if not (isinstance(fl, int) and fl & 3):
                        L.violation('the import macro passes neither RTLD_LAZY nor RTLD_NOW to dlopen', 'dlopen flags %r' % (fl,))
                    r = repr(d.args[0])
                    if 'LIBDIR' not in r or 'INSTSONAME' not in r or r.index('LIBDIR') > r.index('INSTSONAME'):
                        L.violation('the import macro loads another library than libpython', 'dlopen of %s' % r)
                    L.d['cov']['macro loads libpython'] = 1
        L.sample('import_python: %s' % [e.kind + ' ' + e.name for e in path.events][:9])

    explore_all(rep, 'import_python', rm, Pol(), jm)
    for k in ('macro reaches the engine', 'macro loads libpython'):
        if not rep.cov.pop(k, 0):
            rep.violation('coverage: ' + k + ': no path', '')
    return dict(level='other',
                rule='On every abstract path of Codegen::{module_name, module_from_str, module_names} and of the import_python macro an init_python event precedes the first interpreter event; Codegen::{new, generate, build, module_names} with no module have no interpreter event; no other public function without a GIL token reaches with_gil; dlopen(LIBDIR/INSTSONAME, RTLD_GLOBAL) precedes the engine call of the macro unless looking the library up failed.',
                assumptions=['contracts in sa/models.py for pyo3::prepare_freethreaded_python, Python::with_gil and libc::dlopen', 'a Bound<PyModule> given to Codegen::module proves an initialised interpreter'],
                explanation='Event-order analysis over all abstract MIR paths of the public entry points plus a reverse call-graph closure from every GIL acquisition.')


def root_name(n):
    return n.split('::{closure')[0]

