"""Codegen-level harness shared by the checks: symbolic Codegen values, summaries of Module::parse and Module::generate."""
from engine import *


def codegen_value(P, cfg=None, modules=(), embedded=None):
    return struct(P, 'codegen::Codegen', lambda f: (cfg or sym_cfg(P)) if f == 'cfg' else Lst(list(modules)) if f == 'modules' else (embedded or HMap(False, 'Fx')))


def empty_module(P, **kw):
    return struct(P, 'module::Module', lambda f: kw.get(f, Lst([]) if f in VECS else S('top', f)))


def external_import(P):
    return struct(P, 'import::Import', None, origin=mk_path(P, [S('o0'), S('o1')]), target=mk_path(P, [S('t0'), S('t1')]),
                  import_type=enum(P, 'ImportType', 'ExternalImport'))


def generate_summary(prog, fallible=True):
    """summary of Module::generate: an opaque stream of that module, or an error"""
    def h(I, args, ref, rt):
        m = I.deref(args[0])
        nm = tuple(path_names(I, field(prog, m, 'name', 'module::Module')))
        ev = I.event('generate', 'Module', (S('names', *nm),))
        ev.extra = m
        if fallible and I.path.split(('ok', 'err'), 'result of Module::generate') == 'err':
            ev.res = 'err'
            return err(S('generr', S('names', *nm)))
        ev.res = 'ok'
        return ok(TS([('opaque', S('gen', S('names', *nm)))]))
    return h


def callsites(P, pred):
    """(body, terminator, fnref name) of every direct call whose resolved name satisfies pred"""
    for b in list(P.bodies.values()):
        for blk in b['blocks'] or []:
            t = blk['t']
            if t and t['t'] == 'call' and t['f']['o'] == 'const' and t['f']['c']['k'] == 'fn':
                r = t['f']['c']['f']
                for n in {r['name'], (r['res'] or r)['name']}:
                    if pred(n):
                        yield b, t, n
                        break


def is_err(out):
    return out[0] == 'ret' and isinstance(out[1], Adt) and out[1].p == RESULT and out[1].v == 1


def is_ok(out):
    return out[0] == 'ret' and isinstance(out[1], Adt) and out[1].p == RESULT and out[1].v == 0
