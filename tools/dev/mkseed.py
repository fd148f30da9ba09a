"""python3 /tmp/mkseed.py FILE.py : file defines SEEDS=[dict(id,prop,edits=[(file,old,new[,nth])],demo,needs,breaks)]"""
import sys, os, json, subprocess, runpy, stat
S=runpy.run_path(sys.argv[1])['SEEDS']
only=sys.argv[2:]
R=os.environ.get('SEEDREPO','/repo')
base='ad7793e'
for s in S:
    if only and s['id'] not in only: continue
    d='/verif/seeded/'+s['id']; os.makedirs(d,exist_ok=True)
    assert not subprocess.run(['git','-C',R,'status','--porcelain'],capture_output=True,text=True).stdout.strip()
    try:
        for e in s['edits']:
            p=R+'/'+e[0]; t=open(p).read()
            n=t.count(e[1]); nth=e[3] if len(e)>3 else None
            if nth is None: assert n==1,(s['id'],n,e[1])
            i=-1
            for _ in range((nth or 0)+1): i=t.index(e[1],i+1)
            t=t[:i]+e[2]+t[i+len(e[1]):]
            open(p,'w').write(t)
        df=subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True).stdout
        open(d+'/patch.diff','w').write(df)
        # originality of removed lines
        for e in s['edits']:
            pass
        import re
        cur=None
        for ln in df.splitlines():
            if ln.startswith('--- a/'): cur=ln[6:]; orig=subprocess.run(['git','-C',R,'show',f'{base}:{cur}'],capture_output=True,text=True).stdout.splitlines()
            elif ln.startswith('-') and not ln.startswith('---') and ln[1:] not in orig: print('NOT ORIGINAL',s['id'],ln)
    finally:
        subprocess.run(['git','-C',R,'checkout','-q','--','.'])
    open(d+'/demo.py','w').write(s['demo'].strip()+'\n')
    open(d+'/demo.sh','w').write('#!/bin/bash\ncd /repo && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo exec timeout 250 /opt/vp/venv/bin/python "$(dirname "$(realpath "$0")")/demo.py"\n' if 0 else
      '#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\ncd /repo\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo exec timeout 250 /opt/vp/venv/bin/python "$here/demo.py"\n')
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    print('written',s['id'])
