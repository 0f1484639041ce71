#!/usr/bin/env python3
"""mk.py [ID...]: makes and confirms seeds from seeds.py"""
import sys, os, shutil, subprocess, tempfile, json
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
ORIG=subprocess.run("git log --format='%H %s' | grep -v ' fix:' | head -1 | cut -c1-40",shell=True,cwd='/repo',capture_output=True,text=True).stdout.strip()
DEMO='''#!/bin/bash
# Builds the program beside this file against the tree in the working directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
export PATH=/opt/veriftools/go1.27.3/bin:/opt/vp/gobin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
mkdir -p "$d/m/g" || exit 3
printf 'module demo\\n\\ngo 1.20\\n\\nrequire github.com/zeldovich/go-rpcgen v0.0.0\\n\\nreplace github.com/zeldovich/go-rpcgen => %s\\n' "$repo" > "$d/m/go.mod"
cp "$repo/go.sum" "$d/m/" 2>/dev/null
GEN
cp "$here/demo.go.txt" "$d/m/main.go"
cd "$d/m" && go build -o demo . && SCRATCH="$d" REPO="$repo" timeout 100 ./demo
'''
GENX='''(cd "$repo" && go build -o "$d/gen" .) || exit 3
"$d/gen" -i "$here/demo.x" -o "$d/m/g/g.go" -p g FLAGS || exit 4'''
GENB='(cd "$repo" && go build -o "$d/gen" .) || exit 3'
def sh(c,cwd,env=None): 
    return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,env=env)
for s in SEEDS:
    if len(sys.argv)>1 and s['id'] not in sys.argv[1:]: continue
    d='/verif/seeded/'+s['id']; os.makedirs(d,exist_ok=True)
    t=tempfile.mkdtemp(prefix='seed-'); r=t+'/repo'
    shutil.copytree('/repo',r)
    for f,o,n in s['edits']:
        p=r+'/'+f; x=open(p).read(); assert x.count(o)>=1,(s['id'],f,o); x=x.replace(o,n,1) ; open(p,'w').write(x)
    diff=sh('git diff --no-ext-diff',r).stdout
    open(d+'/patch.diff','w').write(diff)
    bad=[l for l in diff.splitlines() if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:]+'\n' not in ''.join(x for x in [sh('git show %s:%s'%(ORIG,f),r).stdout for f,_,_ in s['edits']])]
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    demo=DEMO.replace('GEN\n',(GENX.replace('FLAGS',s.get('flags','')) if 'x' in s else GENB if s.get('gen') else ':')+'\n',1)
    open(d+'/demo.sh','w').write(demo); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.go.txt','w').write(s['demo'])
    if 'x' in s: open(d+'/demo.x','w').write(s['x'])
    fmt=sh('/opt/veriftools/go1.27.3/bin/gofmt -l *.go rfc1057 rfc1813 xdr | grep -v "^xdr.go"',r).stdout
    # confirm
    o=t+'/demo'; shutil.copytree(d,o); os.remove(o+'/patch.diff'); os.remove(o+'/meta.json')
    env=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:/opt/vp/gobin:'+os.environ['PATH'],GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local')
    b=sh('goyacc -o xdr.go -p xdr xdr.y && go build ./... && go vet ./rfc1057 ./xdr',r,env); ts=sh('go test ./...',r,env)
    a=sh('bash '+o+'/demo.sh','/repo'); m=sh('bash '+o+'/demo.sh',r)
    print(s['id'],'build',b.returncode,'tests',ts.returncode,'clean',a.returncode,'patched',m.returncode, 'NONORIG:' +str(bad) if bad else '', 'FMT '+fmt if fmt else '')
    if b.returncode: print(b.stderr[-600:])
    if a.returncode: print('CLEAN FAILS:',(a.stdout+a.stderr)[-600:])
    print('   ',(m.stdout+m.stderr).strip()[-300:])
    shutil.rmtree(t)
