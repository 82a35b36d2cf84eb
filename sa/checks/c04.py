"""C04 stdout/stderr are redirected only while parsing, then restored"""
import ast
from engine import *

STREAMS = ('stdout', 'stderr')


def codegen_value(P, cfg=None, modules=()):
    return struct(P, 'codegen::Codegen', lambda f: (cfg or sym_cfg(P)) if f == 'cfg' else Lst(list(modules)) if f == 'modules' else HMap(False, 'Fx'))


def empty_module(P, **kw):
    return struct(P, 'module::Module', lambda f: kw.get(f, Lst([]) if f in VECS else S('top', f)))


def external_import(P):
    return struct(P, 'import::Import', None, origin=mk_path(P, [S('o0'), S('o1')]), target=mk_path(P, [S('t0'), S('t1')]),
                  import_type=enum(P, 'ImportType', 'ExternalImport'))


def writable(code):
    """can the value of this constant Python expression be written to (by its syntax tree)?"""
    try:
        t = ast.parse(code.strip(), mode='eval').body
    except SyntaxError:
        return False
    if isinstance(t, (ast.Lambda, ast.Constant, ast.Dict, ast.List, ast.Tuple, ast.Set, ast.JoinedStr)):
        return False
    if isinstance(t, ast.Call):
        own = isinstance(t.func, ast.Call) and isinstance(t.func.func, ast.Name) and t.func.func.id == 'type' and len(t.func.args) == 3
        if own:
            return any(isinstance(x, ast.Constant) and x.value == 'write' for x in ast.walk(t.func.args[2])) or not isinstance(t.func.args[2], ast.Dict) or bool(getattr(t.func.args[1], 'elts', ()))
        if isinstance(t.func, ast.Name) and t.func.id == 'type':
            return any(isinstance(x, ast.Constant) and x.value == 'write' and 'staticmethod' in code for x in ast.walk(t))
    return True


class Pol(ParsePolicy):
    def outcomes(self, path, ev):
        sysev = any(a is S('pymodule', 'sys') for a in ev.args)
        if ev.kind in ('setattr',) or (ev.kind == 'getattr' and sysev) or ev.kind == 'eval' or (ev.kind == 'import' and ev.args[0] == 'sys'):
            return ('ok', 'err')
        if ev.kind == 'import' and isinstance(ev.args[0], Sym):
            return ('ok', 'err')
        return ('ok',)

    def segments(self, path, s):
        return (1,)

    def lengths(self, path, s):
        return (0,) if s is S('cfg', 'blocklist_names') else (1,)


def judge_streams(L, P, path, out, root):
    if out[0] not in ('ret', 'panic'):
        return
    sysm = S('pymodule', 'sys')
    orig = {s: S('attr', sysm, s) for s in STREAMS}
    state = dict(orig)
    tried = {s: False for s in STREAMS}
    for e in path.events:
        if e.kind == 'setattr' and e.args[0] is sysm and e.args[1] in STREAMS:
            s = e.args[1]
            if isinstance(e.args[2], Sym) and e.args[2].op == 'evalres' and isinstance(e.args[2].args[0], str):
                L.count('obligations')
                if not writable(e.args[2].args[0]):
                    L.violation('the replacement of sys.%s cannot be written to' % s, 'sys.%s is set to the value of %r, which has no write method' % (s, e.args[2].args[0]))
            if e.res == 'ok':
                state[s] = e.args[2]
                tried[s] = False
            elif e.args[2] is orig[s]:
                tried[s] = True
        elif e.kind == 'parse' and e.name == 'Module':
            L.count('parses judged')
            for s in STREAMS:
                L.count('obligations')
                want = path.known(S('cfg', 'suppress_python_' + s))
                red = state[s] is not orig[s]
                if red and want is not True:
                    L.violation('%s redirected without being asked (%s)' % (s, root), 'a path of %s parses a module with sys.%s replaced while the configuration flag is %s' % (root, s, want))
                if not red and want is not False:
                    L.violation('%s not redirected although asked (%s)' % (s, root), 'a path of %s parses a module with sys.%s untouched while the configuration flag is %s' % (root, s, want))
    kind = 'panic' if out[0] == 'panic' else 'error' if isinstance(out[1], Adt) and out[1].p == RESULT and out[1].v == 1 else 'success'
    for s in STREAMS:
        L.count('obligations')
        L.count('exits with ' + kind)
        if state[s] is not orig[s] and not tried[s]:
            L.violation('%s not restored on %s (%s)' % (s, kind, root),
                        '%s ends with %s on a path where sys.%s still is %r; last events: %s' % (root, kind, s, state[s], [repr(e) for e in path.events[-4:]]))
    L.sample('%s: %s exit, %s' % (root, kind, ', '.join('%s=%s' % (s, 'restored' if state[s] is orig[s] else 'restore attempted') for s in STREAMS)))


def parse_sites(P):
    """(function, position) of every call of Module::parse outside Module itself"""
    out = set()
    for b in P.bodies.values():
        if not b['blocks']:
            continue
        for blk in b['blocks']:
            t = blk['t']
            if t and t['t'] == 'call' and t['f']['o'] == 'const' and t['f']['c']['k'] == 'fn':
                r = t['f']['c']['f']
                n = (r['res'] or r)['name'] if r.get('res') else r['name']
                if n.endswith('module::Module::parse') and 'module::Module::parse' not in b['name'] and '/tests' not in t['at']:
                    out.add((b['name'], t['at']))
    return out


def run(rep):
    P = program()
    M = contracts(P)
    Pol.opaque_names = {'module::Module::parse': module_summary(P)}
    sites = parse_sites(P)
    seen = set()
    roots = []
    cm = fn(P, 'Codegen::module')
    pd = fn(P, 'Codegen::parse_dependencies')

    def run_module(path):
        I = Interp(P, path, M)
        return I.call_body(cm, [codegen_value(P), Ref([S('mod')])])

    def run_deps(path):
        I = Interp(P, path, M)
        return I.call_body(pd, [Ref([codegen_value(P, modules=[empty_module(P, imports=Lst([external_import(P)]))])])])

    def judge(root):
        def j(L, path, out):
            judge_streams(L, P, path, out, root)
            for e in path.events:
                if e.kind == 'parse' and e.name == 'Module':
                    L.d['cov']['site ' + e.fn + '@' + e.at] = 1
        return j
    for root, r in (('Codegen::module', run_module), ('Codegen::parse_dependencies', run_deps)):
        n0 = rep.cov.get('parses judged', 0)
        explore_all(rep, root, r, Pol(), judge(root))
        if rep.cov.get('parses judged', 0) == n0:
            rep.violation('coverage: %s parses nothing' % root, 'no path of %s reaches Module::parse' % root)
    seen = {k[5:] for k in rep.cov if k.startswith('site ')}
    for k in list(rep.cov):
        if k.startswith('site '):
            del rep.cov[k]
    for f, at in sites:
        if f + '@' + at not in seen:
            rep.violation('a module is parsed outside the redirection (%s)' % f, 'Module::parse is called by %s, which is not reached from Codegen::module or parse_dependencies' % f)
    rep.count('call sites of Module::parse', len(sites))
    return dict(level='other',
                rule='On every abstract path: at each Module::parse event sys.stdout/stderr is replaced iff the corresponding flag is known true; at every exit (success, error, panic) the last successful setattr of each stream is the object read before the first replacement, or its restoration was attempted and refused by Python.',
                assumptions=['contracts in sa/models.py', 'streams are only replaced through setattr on the sys module', 'setattr, getattr, eval and import of sys may each fail'],
                explanation='Typestate of sys.stdout/sys.stderr along all MIR paths of Codegen::module and Codegen::parse_dependencies with symbolic flags; every call site of Module::parse must lie on an analysed path.')
