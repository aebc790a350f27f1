import os,subprocess,sys,json,shutil
VP='/opt/venv/bin/python'
SC='/tmp/seedrepo'
ENV=dict(os.environ,PYTHONDONTWRITEBYTECODE='1',PYTHONPATH=SC+'/src',OPENBLAS_NUM_THREADS='1',MPLBACKEND='Agg',PYTHONHASHSEED='0')
def reset():
    subprocess.run(['rm','-rf','/tmp/seedrepo'],check=True)
    subprocess.run(['git','clone','-q','/repo',SC],check=True)
def demo(d):
    return subprocess.run(['bash',d+'/demo.sh'],cwd=SC,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=300)
def mk(id,prop,edits,demo_py,needs,breaks,tests=True):
    d='/verif/seeded/'+id
    reset()
    for f,a,b in edits:
        p=SC+'/src/CTL/'+f
        s=open(p).read()
        if s.count(a)!=1:
            print(id,'EDIT count',s.count(a),repr(a[:60])); return False
        open(p,'w').write(s.replace(a,b))
    diff=subprocess.run(['git','-C',SC,'diff'],stdout=subprocess.PIPE,text=True).stdout
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.py','w').write(demo_py)
    open(d+'/demo.sh','w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    r=demo(d)
    bad=r.returncode!=0
    out=r.stdout[-300:]
    ok=True
    if tests:
        t=subprocess.run([VP,'-m','pytest','-q','-n','8','-p','no:cacheprovider','--timeout=300','-x','src'],cwd=SC,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        tl=t.stdout.strip().splitlines()[-1] if t.stdout.strip() else ''
        ok='57 passed' in tl
    subprocess.run(['git','-C',SC,'checkout','-q','.'])
    g=demo(d)
    # blame: lines removed must be original
    good=g.returncode==0 and bad and ok
    print(('OK ' if good else 'BAD'),id,'demo clean rc',g.returncode,'patched rc',r.returncode,'tests',tl if tests else '-')
    if not good: print('   patched out:',out,'\n   clean out:',g.stdout[-300:])
    return good
