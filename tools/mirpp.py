"""Pretty-print dumped MIR bodies whose name contains a substring (debug aid)."""
import json, sys
D = json.load(open(sys.argv[1])); T = D['types']
def pl(p):
    s = '_%d' % p['l']
    for e in p['p']:
        k = e['e']
        s = {'deref': lambda: '(*%s)' % s, 'field': lambda: '%s.%d' % (s, e['i']), 'index': lambda: '%s[_%d]' % (s, e['l']),
             'cindex': lambda: '%s[c%d%s]' % (s, e['o'], 'fe' if e['fe'] else ''), 'subslice': lambda: '%s[%d..%d%s]' % (s, e['from'], e['to'], 'fe' if e['fe'] else ''),
             'downcast': lambda: '(%s as %s)' % (s, e['n']), 'opaque': lambda: s + '?'}[k]()
    return s
def cn(c):
    k = c['k']
    if k == 'fn': return 'FN ' + c['f']['name']
    if k in ('str', 'int', 'bytes'): return json.dumps(c['v'])
    if k == 'uneval': return 'CONST %s p%s' % (c['name'], c['promoted'])
    return k + ':' + T[c['ty']]['s'] + str(c.get('name', ''))
def op(o): return cn(o['c']) if o['o'] == 'const' else ('mv ' if o['o'] == 'move' else '') + pl(o['p'])
def rv(r):
    k = r['r']
    if k == 'use': return op(r['o'])
    if k in ('ref', 'reborrow'): return '&' + ('mut ' if int(r['m']) else '') + pl(r['p'])
    if k == 'agg': return '%s%s(%s)' % (r['k'], ':' + r.get('p', '') + ':' + str(r.get('vn', '')), ', '.join(map(op, r['ops'])))
    if k == 'bin': return '%s(%s, %s)' % (r['op'], op(r['a']), op(r['b']))
    if k == 'un': return '%s(%s)' % (r['op'], op(r['a']))
    if k == 'cast': return 'cast[%s] %s -> %s' % (r['k'], op(r['o']), T[r['t']]['s'])
    if k == 'discr': return 'discr(%s)' % pl(r['p'])
    return json.dumps(r)
for b in D['bodies']:
    if sys.argv[2] not in b['name'] : continue
    print('==', b['name'], b['kind'], b['promoted'], b['at'])
    for i, l in enumerate(b['locals']): print('   _%d: %s' % (i, T[l]['s']))
    for i, bl in enumerate(b['blocks']):
        if int(bl['c']): continue
        print(' bb%d:' % i)
        for s in bl['s']:
            print('    ', ('%s = %s' % (pl(s['p']), rv(s['r']))) if s['s'] == '=' else ('dead _%d' % s['l'] if s['s'] == 'dead' else s))
        t = bl['t']
        if t['t'] == 'call': print('     %s = %s(%s) -> %s   [%s]' % (pl(t['d']), op(t['f']), ', '.join(map(op, t['a'])), t['b'], t['at']))
        elif t['t'] == 'switch': print('     switch', op(t['o']), t['c'], t['d'])
        elif t['t'] == 'drop': print('     drop', pl(t['p']), t['b'])
        else: print('    ', {k: v for k, v in t.items() if k not in ('at',)} if t['t'] != 'assert' else 'assert %s==%s %s -> %s' % (op(t['o']), t['e'], t['m']['k'], t['b']))
