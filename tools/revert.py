"""python3 tools/revert.py [commit...]: revert each fix: commit alone in a copy of /repo; its checks have to report it"""
import subprocess, shutil, os, sys, re
want=sys.argv[1:]; fixed={}
for l in open('/verif/known-findings.txt'):
    m=re.match(r'fixed: property=(C\d+) (\w+) ',l)
    if m: fixed.setdefault(m[2],[]).append(m[1])
D='/tmp/revrepo'
for c,ids in fixed.items():
    if want and c not in want: continue
    shutil.rmtree(D, ignore_errors=True); shutil.copytree('/repo', D)
    r=subprocess.run(['git','-C',D,'-c','user.name=x','-c','user.email=x@x','revert','--no-commit',c],capture_output=True,text=True)
    if r.returncode: print(c,'does not revert alone (later fixes build on it)',flush=True); continue
    b=subprocess.run(['go','build','./...'],cwd=D,env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off'),capture_output=True,text=True)
    if b.returncode: print(c,'does not build when reverted alone',flush=True); continue
    for i in sorted(set(ids)):
        r=subprocess.run(['/verif/check',i],env=dict(os.environ,VERIF_REPO=D,VERIF_SEED=os.environ.get('VERIF_SEED','1')),capture_output=True,text=True)
        v=[l for l in r.stdout.split('\n') if l.startswith('violation')]
        print(c,i,'rc',r.returncode,(v or [r.stdout[-200:]])[0][:160],flush=True)
shutil.rmtree(D, ignore_errors=True)
