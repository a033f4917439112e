import sys; sys.path.insert(0,'/verif')
import importlib,re,json,time
from pyded import job, concrete
for m in sys.argv[1].split(','): importlib.import_module('contracts.'+m)
for c in job.REGISTRY:
    if re.search(sys.argv[2],c.name):
        t=time.time(); print(c.short, concrete.search(c, int(sys.argv[3]) if len(sys.argv)>3 else 1, c.samples, 30), round(time.time()-t,1))
