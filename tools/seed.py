#!/usr/bin/env python3
"""Makes and validates planted bugs.  seed.py make SPEC.py ; seed.py check ID..."""
import json,os,subprocess,sys,shutil
V='/verif';K=V+'/tools/seedkit';W='/tmp/seedwt'
def sh(c,**k): return subprocess.run(c,shell=True,text=True,capture_output=True,errors='replace',**k)
def head(): return sh('git -C /repo rev-parse HEAD').stdout.strip()
def wt():
    if not os.path.isdir(W): sh(f'git -C /repo worktree add --detach -f {W} HEAD')
    sh(f'git -C {W} checkout -q -- .; git -C {W} clean -fdq; git -C {W} checkout -q --detach {head()}')
def make(id,prop,edits,needs,breaks,driver=None,test='',pkg=None,model=None):
    d=f'{V}/seeded/{id}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    wt()
    for f,o,n,k in edits:
        p=f'{W}/{f}'; s=open(p).read(); parts=s.split(o)
        assert len(parts)>=k+1 and (k>0),(id,f,o,len(parts)-1)
        open(p,'w').write(o.join(parts[:k])+n+o.join(parts[k:]))
    # only original lines may change
    out=sh(f'git -C {W} diff -U0').stdout
    cur=None
    for l in out.splitlines():
        if l.startswith('--- '): cur=l[6:]
        if l.startswith('@@'):
            a=l.split()[1][1:]; st,ln=(a.split(',')+['1'])[:2]
            for i in range(int(st),int(st)+int(ln)):
                b=sh(f'git -C /repo blame -s -L{i},{i} HEAD -- {cur}').stdout
                if 'cd5b223' not in b.split()[0]: print('  NOT ORIGINAL',id,cur,i,b.strip())
    open(d+'/patch.diff','w').write(sh(f'git -C {W} diff').stdout)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    if driver:
        shutil.copy(K+'/demo_helper.sh',d+'/demo.sh')
        open(d+'/gen_test.go.txt','w').write(open(K+'/gen_test.go.txt').read().replace('@DRIVER@',driver))
        open(d+'/model.go.txt','w').write(model or open(K+'/model.go.txt').read())
        shutil.copy(K+'/fake_demo.go.txt',d+'/fake_demo.go.txt')
        open(d+'/case_demo.go.txt','w').write(test)
    else:
        open(d+'/demo.sh','w').write(open(K+'/demo_unit.sh').read().replace('@PKG@',pkg))
        open(d+'/demo_test.go.txt','w').write(test)
    os.chmod(d+'/demo.sh',0o755)
def stable():
    base=set(json.load(open('/opt/vp/BASELINE.json'))['pass']) if False else None
    r=sh('bash /opt/vp/test.sh /tmp/seed_out.json')
    o=json.load(open('/tmp/seed_out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
    def names(x):
        for k in ('pass','passed','stable','tests'):
            if k in x: return x[k]
        return x
    return o,b
def check(id,checks=None,tests=True):
    d=f'{V}/seeded/{id}'; meta=json.load(open(d+'/meta.json'))
    wt()
    r=sh(f'bash {d}/demo.sh',cwd=W); clean=r.returncode
    if clean: print('  CLEAN DEMO FAILS',r.stdout[-1500:],r.stderr[-500:])
    a=sh(f'git -C {W} apply {d}/patch.diff'); assert a.returncode==0,a.stderr
    b=sh('. /opt/vp/env.sh; go build ./... && cd cmd/sqlgen && go build ./... ',cwd=W,executable='/bin/bash')
    if b.returncode: print('  BUILD',b.stderr[-500:])
    r=sh(f'bash {d}/demo.sh',cwd=W); bad=r.returncode
    last=[l for l in r.stdout.splitlines() if l.strip()][:6]
    t='-'
    if tests:
        t=runtests()
    env=dict(os.environ,VERIF_REPO=W,VERIF_DIR='/tmp/mutv')
    os.makedirs('/tmp/mutv',exist_ok=True)
    res=[]
    for p in [meta['property']]+(checks or []):
        c=subprocess.run([V+'/bin/sqlgencheck','-property',p],cwd=W,env=env,text=True,capture_output=True,errors='replace')
        res.append(f'{p}:{c.returncode}')
        if c.returncode==1 and p==meta['property']: res.append(' '.join([l for l in c.stdout.splitlines() if l and not l.startswith(('rule','re-run','PASS'))][:1])[:220])
    ok = clean==0 and bad!=0
    print(('OK ' if ok else 'BAD'),id,'clean',clean,'patched',bad,'tests',t,*res)
    if not ok or '-v' in sys.argv: print('    '+'\n    '.join(last))
    wt()
def runtests():
    # the stable tests of a patched scratch copy: same steps as /opt/vp/test.sh without the DB ones
    s=open('/opt/vp/test.sh').read().replace('/repo',W).replace('/opt/vp/logs','/tmp/seedlogs').replace('/opt/vp/work','/tmp/seedwork').replace('/opt/vp/.lock','/tmp/seed.lock').replace('flock 9','true')
    open('/tmp/seed_test.sh','w').write(s)
    sh('bash /tmp/seed_test.sh /tmp/seed_out.json')
    o=json.load(open('/tmp/seed_out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
    return cmp(o,b)
def cmp(o,b):
    P=set(o.get('passed',o.get('pass',[])));B=set(b.get('passed',b.get('pass',b.get('stable',[]))))
    miss=B-P
    return 'all%d'%len(B) if not miss else 'MISSING '+','.join(sorted(miss)[:4])
if __name__=='__main__':
    if sys.argv[1]=='make':
        ns=dict(make=make); exec(open(sys.argv[2]).read(),ns)
    else:
        for i in [a for a in sys.argv[2:] if not a.startswith('-')]:
            check(i,tests='-t' not in sys.argv)
