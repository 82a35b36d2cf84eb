#!/usr/bin/env python3
"""Write MANIFEST.json from the list of built checks."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'path-sensitive abstract interpretation of the MIR (rustc driver) over symbolic Python objects'
NOTE = ('Static: every judged fact comes from the MIR of /repo\'s current source. Sound relative to the contracts of std, pyo3 and '
        'other libraries in sa/models.py and to the per-path input bounds named in the evidence; paths the contracts cannot follow are counted as undecided in the evidence.')
CHECKS = {
    'C01': (AI, ''),
    'C02': (AI + ' with symbolic switches; queries over the emitted tokens', ''),
    'C03': (AI + ' and module trees with labelled members', ''),
    'C04': (AI, ''),
    'C05': (AI + '; every fallible Python call and every comparison of unknown text forks, a reachable panic is the violation', ''),
    'C06': (AI, ''),
    'C07': (AI, ''),
    'C08': (AI + '; the generated tokens for keyword names are compared with those for ordinary names', ''),
    'C09': (AI + '; type-level witness: the generated bindings are compiled and their MIR interpreted abstractly over symbolic arguments', ''),
    'C10': (AI + '; type-level witness: the generated bindings are compiled and their MIR interpreted abstractly', ''),
    'C11': (AI + '; type-level witness: the generated accessors are compiled and their MIR interpreted abstractly', ''),
    'C12': (AI + '; compile-fail witnesses: the generated tokens for every type, position, parameter shape and name are type-checked by rustc', ''),
    'C13': (AI + ' of the annotation parser over every spelling and class; the generated signatures are compiled and the types the compiler resolves are compared', ''),
    'C14': ('scan of every MIR call site, cast and hash-container iteration with local dataflow to the consumers; ' + AI + ' for the provenance of documentation', ''),
    'C15': (AI, ''),
    'C16': (AI + '; type-level witness: the generated embedding function is compiled and its MIR interpreted abstractly', ''),
    'C17': (AI + ' and module trees with labelled members', ''),
    'C18': (AI + ' with symbolic item names', ''),
    'C19': (AI + ' of relative paths over symbolic names and of whole module trees; the generated code is compiled and what the compiler\'s name resolution makes of every type path and re-export is compared', ''),
    'C22': (AI + ' of the traversal, with submodules that bear the names of other modules', ''),
    'C23': (AI + ' with provenance of every documentation text; module trees with labelled members; queries over the emitted tokens', ''),
    'C24': (AI + '; type-level witness: the generated bindings are compiled and their MIR interpreted abstractly with every Python operation failing in turn', ''),
    'C25': (AI + ' of the procedural macro with every engine call and libpython lookup failing in turn', ''),
}
NA = {
    'C20': 'quantifies over runtime values of pyo3 conversions; no static argument over this source bounds them (the type table itself is decided by C12/C13)',
    'C21': 'quantifies over the text of docstrings (string rewriting); the attachment of a docstring to its item is decided by C23, the rewriting itself is a runtime value question',
}
ALL = ['C%02d' % i for i in range(1, 26)]


def main():
    m = {'version': 1, 'setup_cmd': 'python3 sa/build.py', 'checks': [], 'not_applicable': []}
    for p in ALL:
        if p in CHECKS:
            t, n = CHECKS[p]
            m['checks'].append({'property': p, 'quick_cmd': 'python3 sa/run.py ' + p, 'thorough_cmd': 'python3 sa/run.py %s --tier thorough' % p,
                                'evidence_file': 'evidence/%s.json' % p, 'technique': t, 'level': 'other', 'level_note': (n + ' ' + NOTE).strip()})
        else:
            m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'check not built yet')})
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
