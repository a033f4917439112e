"""plant.py <spec.py>...: build /verif/seeded/<id> from specs and validate in a scratch copy."""
import sys,os,json,subprocess,shutil,runpy
SC='/tmp/pl'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def main(specs):
    base=json.load(open('/opt/vp/BASELINE.json'))
    stable=set(base['stable'])
    for sp in specs:
        S=runpy.run_path(sp)
        id_=os.path.basename(sp)[:-3]
        subprocess.run(['rm','-rf',SC]); os.makedirs(SC); sh(f'cp -a /repo {SC}/repo')
        R=SC+'/repo'
        bad=False
        for f,o,n in S['EDITS']:
            p=f'{R}/{f}'
            t=open(p,newline='').read()
            crlf='\r\n' in t
            if crlf: o=o.replace('\n','\r\n'); n=n.replace('\n','\r\n')
            if t.count(o)!=1: print(id_,'EDIT COUNT',t.count(o),repr(o)); bad=True; break
            open(p,'w',newline='').write(t.replace(o,n))
        if bad: continue
        D=f'/tmp/seedcand/{id_}'
        subprocess.run(['rm','-rf',D]); os.makedirs(D)
        diff=subprocess.run(['git','-C',R,'diff','--binary'],capture_output=True).stdout
        open(D+'/patch.diff','wb').write(diff)
        open(D+'/demo.py','w').write(S['DEMO'])
        open(D+'/demo.sh','w').write('''#!/bin/bash
# exit 0 when the property holds on this input, 1 when it is broken
H="$(cd "$(dirname "$0")" && pwd)"
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
mkdir -p "$S/data" "$S/cache" "$S/work"
export XDG_DATA_HOME="$S/data" XDG_CACHE_HOME="$S/cache" HOME="$S" TMPDIR="$S" SCRATCH="$S/work" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
PYTHONPATH="$PWD" timeout 250 /opt/venv/bin/python "$H/demo.py"
''')
        json.dump({"property":S['PROP'],"needs":S['NEEDS'],"what_it_breaks":S['BREAKS']},open(D+'/meta.json','w'),indent=1)
        r0=sh(f'bash {D}/demo.sh',cwd='/repo')
        r1=sh(f'bash {D}/demo.sh',cwd=R)
        ok=r0.returncode==0 and r1.returncode!=0
        print(id_,'demo clean',r0.returncode,'patched',r1.returncode, (r0.stdout+r0.stderr)[-300:] if r0.returncode else '', (r1.stdout+r1.stderr)[-200:].strip())
        if not ok: continue
        ts=open('/opt/vp/test.sh').read().replace('cd /repo','cd '+R)
        open(SC+'/test.sh','w').write(ts)
        t=sh(f'bash {SC}/test.sh {SC}/out.json')
        res=json.load(open(SC+'/out.json'))
        passed=set(res.get('passed',[]))
        miss=stable-passed
        if miss: print(id_,'TESTS FAIL',len(miss),sorted(miss)[:4]); continue
        dst=f'/verif/seeded/{id_}'
        subprocess.run(['rm','-rf',dst]); shutil.copytree(D,dst)
        print(id_,'KEPT',flush=True)
    subprocess.run(['rm','-rf',SC])
main(sys.argv[1:])
