"""C25 the import macro expands to the bindings of the module that its argument names, or fails to compile"""
from cg import *
import models
from checks.c07 import Pol

LIT = 'literal'


def run(rep):
    Q = program('pyo3_bindgen_macros')
    M = contracts(Q)
    imp = fn(Q, '::import_python')
    seen = set()
    name = []

    # the argument
    def parse(I, a, ref, rt):
        ty = str(ref)
        ev = I.event('syn', 'parse', ('LitStr' if 'LitStr' in ty else ty[:200],))
        if I.path.split(('ok', 'err'), 'the argument is such a token') == 'err':
            ev.res = 'err'
            return err(S('synerr', 'argument'))
        ev.res = 'ok'
        return ok(S(LIT))
    M1 = dict(M)
    M1["syn::parse::ParseBuffer::<'a>::parse"] = parse
    M1['syn::lit::LitStr::value'] = lambda I, a, ref, rt: S('value', I.deref(a[0]))

    def rp(path):
        return Interp(Q, path, M1).call_body(fn(Q, 'Args as syn::parse::Parse>::parse'), [S('input')])

    def jp(L, path, o):
        if o[0] in ('undecided', 'stop'):
            return
        L.count('obligations')
        bad = [e for e in path.events if e.res == 'err']
        if o[0] == 'panic':
            L.violation('parsing the argument of the import macro panics', str(o[1]))
        elif is_err(o) != bool(bad):
            L.violation('the import macro accepts an argument that is no string literal, or rejects one', str(o[1])[:200])
        elif is_ok(o):
            L.d['cov']['argument'] = 1
            v = field(Q, o[1].f[0], 'module_name', 'Args')
            if v is not S('value', S(LIT)):
                L.violation('the import macro changes the name of the module', 'its argument becomes %s' % (v,))
    explore_all(rep, 'Args::parse', rp, Pol(), jp)
    if not rep.cov.pop('argument', 0):
        rep.violation('coverage: no accepted argument of the import macro', '')

    # the expansion
    def r(path):
        return Interp(Q, path, M).call_body(imp, [S('input')])

    def j(L, path, o):
        if o[0] in ('undecided', 'stop'):
            return
        L.count('obligations')
        eng = [e for e in path.events if e.kind == 'engine']
        bad = [e for e in eng if e.res == 'err']
        parsed = path.known(S('parses', 'macro input'))
        if parsed is False:
            if eng:
                L.violation('the import macro generates bindings for an argument it rejects', str(eng[0]))
            if o[0] == 'ret' and 'compile_error' not in str(getattr(I_deref(o[1]), 't', o[1])):
                L.violation('the import macro expands to something else than an error for an argument it rejects', str(o[1])[:200])
            return
        if bad:
            L.d['cov']['failures'] = 1
            if o[0] == 'ret' and 'compile_error' not in str(getattr(I_deref(o[1]), 't', o[1])):
                L.violation('the import macro hides a failure', '%s fails, and the expansion is %s' % (bad[0].name, str(getattr(I_deref(o[1]), 't', o[1]))[:200]))
            return
        if o[0] == 'panic':
            L.violation('the import macro fails although nothing failed', str(o[1]))
            return
        t = getattr(I_deref(o[1]), 't', None)
        names = [e.args[1] for e in eng if e.name == 'module_name']
        cg = [e.args[0] for e in eng if e.name == 'generate']
        if t is None or len(t) != 1 or not (isinstance(t[0], tuple) and t[0][0] == 'opaque' and isinstance(t[0][1], Sym) and t[0][1].op == 'bindings'):
            L.violation('the import macro expands to something else than the generated bindings', str(t)[:200])
            return
        want = S('f', [a for a in subterms(names[0]) if isinstance(a, Sym) and a.op == 'macroargs'][0], 0) if names and any(isinstance(a, Sym) and a.op == 'macroargs' for a in subterms(names[0])) else None
        if len(names) != 1 or want is None or names[0] is not want:
            L.violation('the import macro generates the bindings of another module', 'module_name of %s' % names)
        elif t[0][1].args[0] is not S('cg', want) or len(cg) != 1:
            L.violation('the import macro generates with another configuration or for further modules', str(t[0][1]))
        else:
            L.d['cov']['expansions'] = 1
            if any(e.res == 'err' for e in path.events if e.kind != 'engine'):
                L.d['cov']['expansions without libpython'] = 1
    explore_all(rep, 'import_python', r, Pol(), j)
    for k in ('failures', 'expansions', 'expansions without libpython'):
        if not rep.cov.pop(k, 0):
            rep.violation('coverage: no path of the import macro with ' + k, '')
    return dict(level='other',
                rule='On every path of the import macro: the name given to the engine is the value of the string literal, unchanged; exactly one module is requested from the default generator, and the expansion is exactly what it generates; when importing, parsing or generating fails, and when the argument is no string literal, the macro panics or expands to compile_error!; failing to find libpython alone does not stop it.',
                assumptions=['contracts in sa/models.py for syn, and for the engine as the macro sees it'],
                explanation='Abstract interpretation of the MIR of import_python and of the parser of its arguments, with every engine call and every libpython lookup failing in turn.')


def subterms(t):
    yield t
    if isinstance(t, Sym):
        for a in t.args:
            yield from subterms(a)


def I_deref(v):
    return v.f[0] if isinstance(v, Adt) and len(v.f) == 1 and not hasattr(v, 't') else v
