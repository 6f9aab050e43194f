import json,os,glob
props={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
seeds={}
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); seeds.setdefault(m['property'],[]).append((os.path.basename(os.path.dirname(d)),m))
body=open('/verif/tools/design_body.md').read()
tab='| change | property | needs |\n|---|---|---|\n'
for p in sorted(seeds):
    for n,m in seeds[p]:
        tab+='| %s | %s | %s |\n'%(n,p,m['needs'].replace('|','/'))
body=body.replace('@@SEEDED@@',tab)
body=body.replace('@@NSEED@@',str(sum(map(len,seeds.values()))))
open('/verif/DESIGN.md','w').write(body)
