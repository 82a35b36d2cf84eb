import json,glob,os
seeds=[]
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json'))
    seeds.append((os.path.basename(d[:-1]),m['property'],m['what_it_breaks']))
T=open('/verif/tools/DESIGN.in.md').read()
tab='| planted bug | caught by | what it breaks |\n|---|---|---|\n'+''.join('| %s | %s | %s |\n'%(a,b,c.replace('|','\\|')) for a,b,c in seeds)
k=json.load(open('/verif/known_findings.json'))
fx=''.join('* %s\n'%x.replace('fixed: ','') for x in k['fixed'])
kf=''.join('* %s: %s\n'%(f['property'],f.get('what',f['key'])) for f in k['findings'])
open('/verif/DESIGN.md','w').write(T.replace('@SEEDS@',tab).replace('@FIXES@',fx).replace('@KNOWN@',kf))
