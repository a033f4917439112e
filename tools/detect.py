import sys,os,json,subprocess,concurrent.futures as cf,shutil
ids=sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
def one(d):
    W=f'/tmp/dt/{d}'
    subprocess.run(['rm','-rf',W]); os.makedirs(W)
    subprocess.run(f'cp -a /repo {W}/repo; mkdir {W}/verif; cd /verif; cp -a check contracts pyded tools known_findings.json {W}/verif/',shell=True)
    p=subprocess.run(['git','-C',W+'/repo','apply','--whitespace=nowarn',f'/verif/seeded/{d}/patch.diff'])
    if p.returncode: return d,'APPLY FAIL'
    P=json.load(open(f'/verif/seeded/{d}/meta.json'))['property']
    s=open(W+'/verif/check').read().replace('PYTHONPATH=$PWD',f'PYTHONPATH=$PWD:{W}/repo')
    open(W+'/verif/check','w').write(s)
    try: r=subprocess.run(['./check',P],cwd=W+'/verif',capture_output=True,text=True,timeout=900)
    except subprocess.TimeoutExpired: return d,'TIMEOUT'
    open(f'/tmp/dt/{d}.log','w').write(r.stdout+r.stderr)
    subprocess.run(['rm','-rf',W])
    v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    return d,f"rc={r.returncode} viol={len(v)} nfif={sum('no-failing' in l for l in v)} | {r.stdout.strip().splitlines()[-1][-120:] if r.stdout.strip() else r.stderr[-200:]}"
os.makedirs('/tmp/dt',exist_ok=True)
with cf.ThreadPoolExecutor(3) as ex:
    for d,r in ex.map(one,ids): print(d,r,flush=True)
