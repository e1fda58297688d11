#!/usr/bin/env python3
"""run.py [-a] [ID...]: applies each seeded change to /repo, runs the check of its
property (-a: of all properties), undoes it, and prints which checks report it."""
import subprocess,sys,json,os,glob,time
args=sys.argv[1:]
all_='-a' in args
args=[a for a in args if a!='-a']
ids=args or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob('/verif/seeded/*/meta.json'))
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
miss=[]
for id in ids:
    m=json.load(open(f'/verif/seeded/{id}/meta.json'))
    subprocess.run(['git','-C','/repo','apply',f'/verif/seeded/{id}/patch.diff'],check=True)
    try:
        out=[]
        for p in (props if all_ else [m['property']]):
            t=time.time()
            r=subprocess.run(['/verif/check',p],capture_output=True,text=True,cwd='/verif',env=dict(os.environ,VERIF_TIER='quick',VERIF_SEED='1'))
            v=any(l.startswith(f'VIOLATION property={p} ') for l in r.stdout.splitlines())
            s='CAUGHT' if r.returncode==1 and v else 'miss' if r.returncode==0 else f'BROKEN rc={r.returncode}'
            if s!='miss' or not all_: out.append(f'{p}:{s}({time.time()-t:.0f}s)')
            if p==m['property'] and s!='CAUGHT': miss.append(id)
            if s.startswith('BROKEN'): out.append((r.stdout+r.stderr)[-300:])
    finally:
        subprocess.run(['git','-C','/repo','checkout','--','.'],check=True)
    print(id,m['property'],' '.join(out),flush=True)
print('missed by own check:',miss)
