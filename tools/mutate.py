"""mut.run([(name, file, old, new), ...], ids)"""
import subprocess, shutil, os, sys
def run(muts, ids, tests=True):
    for m in muts:
        name, edits = m[0], m[1:]
        if isinstance(edits[0], str): edits=[edits]
        d='/tmp/mrepo%d'%os.getpid(); shutil.rmtree(d, ignore_errors=True); shutil.copytree('/repo', d)
        for (f,old,new) in edits:
            p=os.path.join(d,f); s=open(p).read(); assert old in s,(name,f,old); s=s.replace(old,new,1); open(p,'w').write(s)
        env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local')
        t=''
        if tests:
            r=subprocess.run('go build ./... && timeout 100 go test ./ring ./message/... 2>&1 | tail -5',shell=True,cwd=d,env=env,capture_output=True,text=True)
            t='build/tests '+('ok' if r.returncode==0 and 'FAIL' not in r.stdout else 'FAIL '+(r.stdout+r.stderr)[-300:])
        for i in ids:
            env2=dict(os.environ,VERIF_REPO=d,VERIF_SEED=os.environ.get('VERIF_SEED','1'))
            r=subprocess.run(['/verif/check',i],env=env2,capture_output=True,text=True)
            v=[l for l in r.stdout.split('\n') if l.startswith('violation')]
            print(f'{name}: {i} rc={r.returncode} [{t}]', (v[0][:230] if v else r.stdout[-300:] if r.returncode==2 else ''),flush=True)
    shutil.rmtree('/tmp/mrepo%d'%os.getpid(), ignore_errors=True)
