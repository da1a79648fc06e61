"""seed.make(id, prop, edits[(file,old,new)], demo{filename:text}, pkgdir, needs, breaks, race=False, flags='')"""
import os, shutil, subprocess, json, textwrap
ENV=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local')
SH='''#!/bin/bash
# exit 0: behaves; non-zero: the property is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
r=""
for f in "$d"/*.go; do
  r="$r,\\"$PWD/@PKG@/zz_$(basename "$f" .go)_test.go\\":\\"$f\\""
done
echo "{\\"Replace\\":{${r#,}}}" > "$t/overlay.json"
timeout 250 go test -vet=off -tags verif -overlay "$t/overlay.json" -run '^TestDemo' -count=1 -timeout 200s @FLAGS@ ./@PKG@
'''
def sh(cmd,cwd): return subprocess.run(cmd,shell=True,cwd=cwd,env=ENV,capture_output=True,text=True)
def make(id,prop,edits,demo,pkg,needs,breaks,flags='',helper=True):
    d='/tmp/srepo'; shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo',d)
    out='/verif/seeded/'+id; shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
    open(out+'/demo.sh','w').write(SH.replace('@PKG@',pkg).replace('@FLAGS@',flags)); os.chmod(out+'/demo.sh',0o755)
    for k,v in demo.items(): open(out+'/'+k,'w').write(v)
    if helper and pkg=='.': shutil.copy('/verif/tools/fake.go.txt',out+'/fake.go')
    r0=sh('bash %s/demo.sh'%out,d)
    for f,o,n in edits:
        p=d+'/'+f; s=open(p).read(); assert s.count(o)>=1,(id,f,o); s=s.replace(o,n,1); open(p,'w').write(s)
    r=sh('gofmt -l gen.*.go client.go ring message ; go build ./... && go vet . ./ring ./message',d)
    if r.returncode or r.stdout.strip(): print(id,'BUILD/fmt',r.stdout,r.stderr[:500])
    t=sh('timeout 200 go test ./... 2>&1 | grep -v "no test files"',d)
    tests='FAIL' if ('FAIL' in t.stdout.replace('','') and 'integration' not in t.stdout) else 'ok'
    patch=sh('git diff',d).stdout; open(out+'/patch.diff','w').write(patch)
    r1=sh('bash %s/demo.sh'%out,d)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(out+'/meta.json','w'),indent=1)
    ok=r0.returncode==0 and r1.returncode!=0
    print(id,prop,'clean rc',r0.returncode,'patched rc',r1.returncode,'tests',tests,'OK' if ok and tests=='ok' else 'PROBLEM')
    if not ok or tests!='ok': print((r0.stdout+r0.stderr)[-1200:] if r0.returncode else '', '\n--patched:',(r1.stdout+r1.stderr)[-800:] if r1.returncode==0 else '', t.stdout[-600:] if tests!='ok' else '')
    else: print('   ',[l for l in (r1.stdout+r1.stderr).split('\n') if 'demo' in l.lower() or 'panic' in l or 'Fatal' in l or '.go:' in l][:2])
    shutil.rmtree(d,ignore_errors=True)
