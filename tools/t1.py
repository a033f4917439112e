import sys; sys.path.insert(0,'/verif')
import importlib
from pyded import job, solve
mods=sys.argv[1].split(',')
for m in mods: importlib.import_module('contracts.'+m)
pat=sys.argv[2] if len(sys.argv)>2 else ''
v='-v' in sys.argv
for c in job.REGISTRY:
    import re
    if re.search(pat,c.name):
        j=job.Job(c,verbose=v).run()
        fails=[o for o in j.obls if o['status']!='proved']
        bl=[] if fails or j.unsup else [l for l in sorted({l for k, l in j.labels if k == 'lemma'}) if not solve.discharge_lemma(l)]
        if bl: print('  BAD LEMMAS',bl)
        print(c.short, 'obls',len(j.obls),'fails',len(fails),'unsup',j.unsup,'wall',round(j.wall,1), 'paths', getattr(j,'npaths',None))
        if not v:
            for o in fails[:3]: print('   ',o['name'],o['note'],str(o['detail'])[:1500])
print(solve.STATS)
