#!/usr/bin/env python3
"""caught.py [ids...]: apply each planted bug to /repo, run its check, restore"""
import sys,os,subprocess,json,re,time
ids=sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
def sh(*a,**k): return subprocess.run(a,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
assert sh('git','-C','/repo','status','--porcelain').stdout.strip()=='' , 'repo dirty'
for i in ids:
    d=f'/verif/seeded/{i}'; prop=json.load(open(d+'/meta.json'))['property']
    # removed lines must be original lines
    ours=[]
    cur=None
    for l in open(d+'/patch.diff'):
        if l.startswith('--- a/'): cur=l[6:].strip()
        m=re.match(r'@@ -(\d+)',l)
        if m: ln=int(m.group(1)); continue
        if l.startswith('---') or l.startswith('+++') or l.startswith('diff') or l.startswith('index'): continue
        if l.startswith('-'):
            b=sh('git','-C','/repo','blame','-l','-L',f'{ln},{ln}','--',cur).stdout
            if '24daca1' not in b: ours.append((cur,ln))
            ln+=1
        elif l.startswith(' '): ln+=1
    r=sh('git','-C','/repo','apply',d+'/patch.diff')
    if r.returncode: print(i,'APPLY FAILED',r.stdout); continue
    t=time.time()
    try:
        e=dict(os.environ,VERIF_SEED=os.environ.get('VERIF_SEED','3'),VERIF_TIER='quick')
        c=sh('python3','check.py',prop,cwd='/verif',env=e)
    finally:
        sh('git','-C','/repo','checkout','--','.')
    v=f'VIOLATION property={prop}' in c.stdout
    print(i,prop,'CAUGHT' if c.returncode==1 and v else 'MISSED exit %d'%c.returncode,'%.0fs'%(time.time()-t),'OWN LINES %s'%ours if ours else '', c.stdout.strip().replace('\n',' | ')[:260] if c.returncode==1 else c.stdout[-500:],flush=True)
