"""Type-level witness: the items the analysed generator emits on its abstract paths, instantiated injectively
(every symbolic name becomes a fresh identifier, every symbolic literal a fresh string), type-checked against pyo3
and lowered to MIR, so that what the generated code does is judged on MIR, not on its spelling."""
import json, os, re, shutil, subprocess
import build
from core import *
from interp import render, rust_str
from lib import Program


class Witness:
    def __init__(self, name):
        self.name, self.items, self.atoms, self.back, self.errors, self.prog = name, [], {}, {}, {}, None

    # ------------------------------------------------------------ instantiation
    def key(self, term):
        k = self.atoms.get(term)
        if k is None:
            k = self.atoms[term] = len(self.atoms)
            self.back['@%d@' % k] = term
        return k

    def ident(self, t):
        if isinstance(t, str):
            return t
        ps = parts(t)
        if any(isinstance(p, str) and '::' in p for p in ps):
            segs, cur = [], []
            for p in ps:
                if isinstance(p, str):
                    bits = p.split('::')
                    for i, b in enumerate(bits):
                        if i:
                            segs.append(cur)
                            cur = []
                        if b:
                            cur.append(b)
                else:
                    cur.append(p)
            segs.append(cur)
            return '::'.join(self.ident(cat(*s)) if s else '' for s in segs)
        if t.op == 'rs' and isinstance(t.args[0], Sym) and t.args[0].op == 'cat' and all(isinstance(x, str) or x.op == 'nm' for x in t.args[0].args):
            return ''.join(x if isinstance(x, str) else 'n%d_' % self.key(x) for x in t.args[0].args)
        if t.op == 'rs' and isinstance(t.args[0], Sym) and t.args[0].op == 'nm':
            return 'n%d_' % self.key(t.args[0])
        return 'x%d_' % self.key(t)

    def lit(self, t):
        if isinstance(t, str):
            return rust_str(t)
        return '"@%d@"' % self.key(t)

    def src(self, toks):
        out = []
        for t in toks:
            if isinstance(t, tuple):
                if t[0] == 'group':
                    o, c = {'p': '()', 'b': '{}', 'k': '[]', 'n': '  '}[t[1]]
                    out.append(o + ' ' + self.src(t[2]) + ' ' + c)
                elif t[0] == 'id':
                    out.append(self.ident(t[1]))
                elif t[0] == 'lit':
                    out.append(self.lit(t[1]))
                elif t[0] == 'opaque':
                    out.append('x%d_' % self.key(t[1]))
                else:
                    out.append(t[1])
            elif isinstance(t, Sym):
                out.append('x%d_' % self.key(t))
            else:
                out.append(t)
        return ' '.join(out).replace('\n', ' ')

    def decode(self, s):
        """term or text of a literal that passed through the witness"""
        if not isinstance(s, str):
            return s
        if s in self.back:
            return self.back[s]
        bits = re.split(r'(@\d+@)', s)
        return cat(*[self.back.get(b, b) for b in bits]) if len(bits) > 1 else s

    def add(self, src, info=None):
        self.items.append((src, info))
        return len(self.items) - 1

    # ------------------------------------------------------------ type checking and lowering
    def compile(self, want_mir=True):
        d = os.path.join(build.WORK, 'witness-' + self.name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + '/src')
        lock = open(os.path.join(build.REPO, 'Cargo.lock')).read()
        ver = re.search(r'name = "pyo3"\nversion = "([^"]+)"', lock)[1]
        shutil.copy(os.path.join(build.REPO, 'Cargo.lock'), d + '/Cargo.lock')
        open(d + '/Cargo.toml', 'w').write('[package]\nname = "vpwitness_%s"\nversion = "0.0.0"\nedition = "2021"\n[lib]\npath = "src/lib.rs"\n[dependencies]\npyo3 = { version = "=%s", default-features = false }\n[workspace]\n' % (self.name, ver))
        live = set(range(len(self.items)))
        rounds = 0
        while True:
            lines = ['#![allow(warnings)]', '']
            for i, (s, _) in enumerate(self.items):
                lines.append('pub mod w%d { %s }' % (i, s) if i in live else '')
            open(d + '/src/lib.rs', 'w').write('\n'.join(lines) + '\n')
            dd = d + '/dump'
            shutil.rmtree(dd, ignore_errors=True)
            os.makedirs(dd)
            rc, out = build.run_driver(d + '/Cargo.toml', ['vpwitness_' + self.name], dd if want_mir else None, os.path.join(build.WORK, 'target'),
                                       clean=('vpwitness_' + self.name,), locked=False, more=('--message-format=json',))
            if rc == 0:
                break
            bad = {}
            tail = []
            for l in out.splitlines():
                try:
                    m = json.loads(l)
                except ValueError:
                    tail.append(l)
                    continue
                if m.get('reason') != 'compiler-message' or m['message']['level'] not in ('error', 'error: internal compiler error'):
                    continue
                for sp in m['message']['spans']:
                    while sp.get('expansion') and not sp['file_name'].startswith('src/'):
                        sp = sp['expansion']['span']
                    if sp['file_name'].endswith('src/lib.rs'):
                        i = sp['line_start'] - 3
                        if i in live:
                            bad.setdefault(i, []).append((m['message'].get('code') or {}).get('code', '') + ' ' + m['message']['message'] if m['message'].get('code') else m['message']['message'])
                            break
            rounds += 1
            if not bad or rounds > 6:
                raise build.BuildError('the witness does not compile for a reason outside its items:\n' + '\n'.join(tail)[-1500:] + out[-1500:])
            for i, ms in bad.items():
                self.errors[i] = ms
                live.discard(i)
        if want_mir:
            self.prog = Program(os.path.join(dd, 'vpwitness_%s.json' % self.name))
        shutil.rmtree(d, ignore_errors=True)
        return self.errors
