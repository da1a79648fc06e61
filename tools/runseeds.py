"""python3 tools/runseeds.py [id...]: run each planted bug's own check on a copy of /repo with the patch"""
import subprocess, shutil, os, sys, json
ids=sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
for i in ids:
    s='/verif/seeded/'+i; m=json.load(open(s+'/meta.json'))
    d='/tmp/rseed'; shutil.rmtree(d, ignore_errors=True); shutil.copytree('/repo', d)
    subprocess.run(['git','-C',d,'apply',s+'/patch.diff'],check=True)
    r=subprocess.run(['/verif/check',m['property']],env=dict(os.environ,VERIF_REPO=d,VERIF_SEED=os.environ.get('VERIF_SEED','1')),capture_output=True,text=True)
    v=[l for l in r.stdout.split('\n') if l.startswith('violation')]
    print(i, m['property'], 'rc', r.returncode, (v or [r.stdout[-200:]])[0][:200], flush=True)
shutil.rmtree('/tmp/rseed', ignore_errors=True)
