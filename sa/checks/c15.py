"""C15 the CLI emits the bindings of all requested modules to one destination only"""
from cg import *


class Pol(ParsePolicy):
    n_modules = 1
    has_output = False

    def cli_args(self, I, p, fs):
        vals = []
        for f in fs:
            if f == 'module_names':
                vals.append(Lst([S('arg', i) for i in range(self.n_modules)]))
            elif f == 'output':
                vals.append(some(S('outpath')) if self.has_output else none())
            else:
                vals.append(S('args', f))
        return Adt(p, 0, vals)

    def outcomes(self, path, ev):
        return ('ok', 'err')

    def lengths(self, path, s):
        return (1, 2)


def is_stdout(n):
    return n in ('std::io::stdio::_print', 'std::io::stdio::stdout', 'std::io::stdio::print_to', 'libc::unix::puts', 'libc::unix::printf', 'libc::unix::write', 'libc::write')


def run(rep):
    C = program('pyo3_bindgen.bin')
    M = contracts(C)
    main = fn(C, '::main')
    args = [a for a in C.adts.values() if a['p'].endswith('::Args')]
    need = {'module_names', 'output'}
    fs = [f for a in args for f in a['v'][0]['f']]
    if not need <= set(fs):
        raise Missing('CLI arguments module_names/output (found %s)' % fs)
    reached = set()

    def mk(n, out):
        pol = Pol()
        pol.n_modules, pol.has_output = n, out

        def r(path):
            I = Interp(C, path, M)
            return I.call_body(main, [])

        def judge(L, path, o):
            L.count('CLI paths')
            evs = path.events
            for e in evs:
                if e.kind in ('stdout', 'fs_write', 'engine', 'create_dir'):
                    L.d['cov']['reach ' + e.kind] = 1
            names = [S('arg', i) for i in range(n)]
            fails = [e for e in evs if e.res == 'err' and e.kind in ('engine', 'fs_write', 'fs_open', 'stdout', 'write', 'create_dir')]
            synerr = any(f.op == 'parses' and v is False for f, v in path.facts.items())
            good_end = o[0] == 'ret' and not is_err(o)
            if o[0] == 'stop':
                ex = [e for e in evs if e.kind == 'exit']
                good_end = bool(ex) and ex[-1].args[:1] == (0,)
            if o[0] == 'undecided':
                if L.d['und']:
                    return
            # 1. what reaches stdout / files
            texts = [S('pretty', t) for t in ()]
            dest_out = [e for e in evs if e.kind == 'stdout' and e.res in ('ok', None)]
            dest_file = [e for e in evs if e.kind == 'fs_write' and e.res == 'ok'] + \
                        [e for e in evs if e.kind == 'write' and e.res == 'ok' and "file(" in e.name]
            L.count('obligations')
            if fails or synerr:
                L.count('CLI paths with a failing step')
                if good_end:
                    what = ('%s %s' % (fails[0].kind, fails[0].name)) if fails else 'formatting'
                    L.violation('the CLI ends successfully although a step failed: ' + what.strip(), 'a path of main on which %s fails ends with success; events %s' % (what, [repr(e) for e in evs][-4:]))
                return
            if o[0] != 'ret' or not good_end:
                if o[0] == 'panic':
                    L.violation('the CLI fails although nothing failed', 'main panics (%s) on a path without a failing step' % (o[1],))
                return
            # 2. all requested modules are in the bindings
            L.count('obligations', 3)
            gens = [e for e in evs if e.kind == 'engine' and e.name in ('generate', 'build')]
            cgs = [e.args[0] for e in gens]
            got = set(a for c in cgs for a in (c.args if isinstance(c, Sym) and c.op == 'cg' else ()))
            for x in names:
                if x not in got:
                    L.violation('a requested module is not generated', 'with %d module names the bindings are generated from %s only' % (n, sorted(map(repr, got))))
            if got - set(names):
                L.violation('a module that was not requested is generated', repr(got - set(names)))
            want = None
            if len(gens) == 1 and gens[0].name == 'generate':
                ts = TS([('opaque', S('bindings', cgs[0]))])
                want = S('pretty', S('file', S('ts', render(ts.t))))
            txt_o = cat(*[e.args[0] for e in dest_out])
            txt_f = cat(*[e.args[1] if e.kind == 'fs_write' else e.args[0] for e in dest_file])
            if out:
                if txt_o != '':
                    L.violation('something is written to stdout although an output file was given', 'text %r' % (txt_o,))
                if not (want is not None and txt_f is want):
                    L.violation('the output file does not receive exactly the formatted bindings', 'it receives %r' % (txt_f,))
                paths = [e.args[0] for e in dest_file if e.kind == 'fs_write'] + [e.args[0] for e in evs if e.kind == 'fs_open']
                if any(p is not S('outpath') and 'outpath' != p and repr(p) not in ('outpath', 'str(outpath)') for p in paths):
                    L.violation('the bindings are written to another file than requested', repr(paths))
                if path.known(S('has_parent', S('outpath'))) is not False:
                    mk_ = [i for i, e in enumerate(evs) if e.kind == 'create_dir' and e.args[0] in (S('pathparent', S('outpath')), S('str', S('pathparent', S('outpath'))))]
                    wr = [i for i, e in enumerate(evs) if e.kind in ('fs_write', 'fs_open')]
                    ex = path.known(S('path_exists', S('pathparent', S('outpath'))))
                    if ex is not True and (not mk_ or not wr or mk_[0] > wr[0] or evs[mk_[0]].name != 'create_dir_all'):
                        L.violation('the directory of the output file is not created first', 'a path of main writes the output file without having created all its parent directories')
            else:
                if dest_file:
                    L.violation('a file is written although no output file was given', repr(dest_file[0]))
                if not (want is not None and txt_o is want):
                    L.violation('stdout does not receive exactly the formatted bindings', 'it receives %r' % (txt_o,))
            L.sample('main with %d modules, output %s: %s' % (n, 'given' if out else 'absent', [e.kind + ' ' + e.name for e in evs]))
        explore_all(rep, 'main(%d modules, %s)' % (n, 'file' if out else 'stdout'), r, pol, judge)
    for n in ((1, 2) if rep.tier == 'quick' else (1, 2, 3)):
        for out in (False, True):
            mk(n, out)
    for k in ('stdout', 'fs_write', 'engine', 'create_dir'):
        if not rep.cov.pop('reach ' + k, 0):
            rep.violation('coverage: main never reaches a %s event' % k, '')
    if not rep.cov.get('CLI paths'):
        rep.violation('coverage: no path of main', '')
    # 3. nobody else writes to stdout
    cli_reach = set()
    for crate in ('pyo3_bindgen_engine', 'pyo3_bindgen_macros', 'pyo3_bindgen', 'pyo3_bindgen.bin'):
        P = program(crate)
        for b, t, nme in callsites(P, lambda n: True):
            rep.count('call sites scanned')
            if is_stdout(nme):
                if crate == 'pyo3_bindgen.bin' and (b['name'] == main['name'] or reachable_from(P, main, b)):
                    rep.count('stdout writes inside main (judged above)')
                    continue
                if '/tests' in t['at']:
                    continue
                rep.violation('%s writes to standard output' % b['name'], 'call of %s' % nme)
    return dict(level='other',
                rule='On every abstract path of main: every failing engine, formatting, directory or write step ends in panic, non-zero exit or Err; otherwise Codegen::generate is reached with exactly the requested names and exactly prettyplease::unparse(parse2(bindings)) is written once, to the output file (parents created first) or to stdout. No other function of the four crates calls a stdout primitive.',
                assumptions=['contracts in sa/models.py for clap, std::fs, std::io', 'the engine as seen by the CLI: module_name adds exactly its module or fails (decided by C06)', 'per run 1..2 module names (3 in the thorough tier)'],
                explanation='Path-sensitive abstract interpretation of the MIR of the CLI main with symbolic arguments, plus a scan of every call site in the MIR of all four crates for stdout primitives.')


def reachable_from(P, root, b):
    seen, todo = set(), [root['name']]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        x = P.byname.get(n)
        for blk in (x or {}).get('blocks') or []:
            t = blk['t']
            if t and t['t'] == 'call' and t['f']['o'] == 'const' and t['f']['c']['k'] == 'fn':
                r = t['f']['c']['f']
                for k in (r['name'], (r['res'] or r)['name']):
                    if k in P.byname:
                        todo.append(k)
        todo += [m for m in P.byname if m.startswith(n + '::{closure')]
    return b['name'] in seen
