import sys, random, json, time
sys.path.insert(0,"/verif")
import importlib
for m in sys.argv[1].split(","): importlib.import_module("contracts."+m)
from pyded import job
import re
for b in job.BOUNDED:
    if re.search(sys.argv[2], b.name):
        t=time.time(); k,v,(d,s)=b.run(random.Random(int(sys.argv[3]) if len(sys.argv)>3 else 1),"quick")
        print(b.name,k,d,round(time.time()-t,1)); 
        if v: print(json.dumps(v,indent=0,default=str)[:2500])
