#!/usr/bin/env python3
"""mt.py FILE.py [names..]: FILE defines M = [(name, prop, file, old, new), ...]; runs the prop check on each in a scratch worktree.
with TESTS=1 also the tests of the touched package tree"""
import sys,subprocess,os,shutil,json,concurrent.futures as cf,tempfile
ns={}; exec(open(sys.argv[1]).read(),ns); sel=sys.argv[2:]
env=dict(os.environ,PATH='/opt/veriftools/go1.24.13/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOFLAGS='-mod=mod',GOPROXY='off',GOWORK='off')
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,env=env,**k)
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def run(m):
    name,prop,f,old,new=m[:5]
    d=tempfile.mkdtemp(prefix='mt_'+name+'_',dir='/tmp/mt'); w=d+'/r'
    try:
        sh(f'git clone -q --shared /repo {w}')
        pairs=[(f,old,new)]+list(m[5:])
        for (f_,o,n) in pairs:
            s=open(w+'/'+f_).read()
            if s.count(o)!=1: return f'{name}: OLD count {s.count(o)} in {f_}'
            open(w+'/'+f_,'w').write(s.replace(o,n))
        b=sh('go build ./...',cwd=w)
        if b.returncode: return f'{name}: BUILD {b.stderr[-500:]}'
        sh(f'git -C {w} diff > /tmp/mt/{name}.diff')
        tests=''
        if os.environ.get('TESTS'):
            pk='./...' if os.environ['TESTS']=='full' else ' '.join(sorted({'./'+('lightstep/sdk/metric' if x[0].startswith('lightstep/sdk/metric/') else os.path.dirname(x[0]))+'/...' for x in pairs}))
            t=sh(f'go test -json -vet=off -count=1 -p 2 {pk}',cwd=w,timeout=900)
            bad=[]
            for l in t.stdout.splitlines():
                try: e=json.loads(l)
                except ValueError: continue
                if e.get('Action')=='fail' and 'Test' in e and e['Package']+'/'+e['Test'] in stable: bad.append(e['Test'])
            tests=' TESTS:'+('pass' if not bad else 'CAUGHT '+','.join(bad[:2]))
        os.makedirs(d+'/v'); sh(f'cp -r /verif/specs /verif/known_findings.txt /verif/properties.jsonl {d}/v/; mkdir -p {d}/v/evidence; cp -r /verif/.build {d}/v/')
        c=sh(f'{d}/v/.build/vfe -repo {w} -verif {d}/v -prop {prop} -tier quick',timeout=1200)
        lines=[l for l in c.stdout.splitlines() if 'VIOLATION' in l or 'obligation' in l]
        open(f'/tmp/mt/{name}.log','w').write(c.stdout+c.stderr)
        return f'{name} {prop}: rc={c.returncode}{tests} | '+' / '.join(lines[:2])[:300]
    except Exception as e: return f'{name}: EXC {e}'
    finally:
        shutil.rmtree(d,ignore_errors=True)
ms=[m for m in ns['M'] if not sel or m[0] in sel]
with cf.ThreadPoolExecutor(int(os.environ.get('J','2'))) as ex:
    for r in ex.map(run,ms): print(r,flush=True)
