#!/usr/bin/env python3
"""seed.py new FILE      makes /verif/seeded/<id>/ from a spec file (python: id, property, needs, breaks, edits=[(file,old,new)], demo=Go body[, imports])
seed.py test ID...       applies each to /repo, builds, runs the stable tests, its demo and the check of its property, and undoes it"""
import json,os,subprocess,sys
R='/repo';S='/verif/seeded'
DEMO='''#!/bin/bash
# exit 0: the property holds for this input; nonzero: it does not
d=$(cd "$(dirname "$0")" && pwd); r=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
cp "$d/main.go.txt" "$w/main.go" && cp "$r/go.sum" "$w/go.sum" || exit 2
printf 'module demo\\n\\ngo 1.23\\n\\nrequire github.com/rveen/ogdl v0.0.0\\n\\nrequire golang.org/x/text v0.3.8\\n\\nreplace github.com/rveen/ogdl => %s\\n' "$r" > "$w/go.mod"
cd "$w" && go build -o demo . || exit 2
timeout 100 ./demo "$r"
'''
GO='''package main

import (
	"fmt"
	"os"
%s)

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}

%s
func main() {
%s}
'''
def sh(c,**k): return subprocess.run(c,shell=True,text=True,capture_output=True,**k)
def clean(): 
    sh(f'git -C {R} checkout -- .')
def new(f):
    ns={"DEMO":DEMO}; exec(open(f).read(),ns)
    i=ns['id']; d=f'{S}/{i}'; os.makedirs(d,exist_ok=True)
    assert sh(f'git -C {R} status --short').stdout=='', 'repo not clean'
    for fn,a,b in ns['edits']:
        s=open(f'{R}/{fn}').read()
        if s.count(a)!=1: clean(); sys.exit(f'{i}: {fn}: {s.count(a)} matches of {a!r}')
        open(f'{R}/{fn}','w').write(s.replace(a,b))
    p=sh(f'cd {R} && gofmt -l . ; git diff').stdout
    open(f'{d}/patch.diff','w').write(sh(f'git -C {R} diff').stdout)
    clean()
    imps=''.join('\t"%s"\n'%x if ' ' not in x else '\t%s\n'%x for x in ns.get('imports',[])+(['github.com/rveen/ogdl'] if not ns.get('noogdl') else []))
    body=ns['demo']; tops=ns.get('top','')
    open(f'{d}/main.go.txt','w').write(ns['raw'] if 'raw' in ns else GO%(imps,tops,body))
    open(f'{d}/demo.sh','w').write(ns.get('sh',DEMO)); os.chmod(f'{d}/demo.sh',0o755)
    json.dump(dict(property=ns['property'],needs=ns['needs'],what_it_breaks=ns['breaks']),open(f'{d}/meta.json','w'),indent=1)
    return i
def rec(i,v):
    f='/verif/tools/seedresults.txt'
    r=dict(l.split() for l in open(f)) if os.path.exists(f) else {}
    r[i]=v
    open(f,'w').write(''.join(f'{a} {b}\n' for a,b in sorted(r.items())))
def test(i):
    d=f'{S}/{i}'; m=json.load(open(f'{d}/meta.json'))
    demo=lambda: sh(f'bash {d}/demo.sh',cwd=R)
    a=demo()
    if sh(f'git -C {R} apply {d}/patch.diff').returncode: print(i,'DOES NOT APPLY'); return
    try:
        base=sh('/verif/tools/baseline.sh').stdout.strip()
        b=demo()
        c=sh(f'cd /verif && ./run.sh {m["property"]}')
    finally: clean()
    caught=c.returncode==1 and f'VIOLATION property={m["property"]}' in c.stdout
    rec(i,'caught' if caught else 'missed')
    first=[l for l in c.stdout.splitlines() if l.startswith('  ')][:2]
    print(i,m['property'],'base',base,'demo',a.returncode,b.returncode,'CAUGHT' if caught else f'MISSED rc={c.returncode}',flush=True)
    if a.returncode or not b.returncode or b.returncode==2: print('   DEMO:',(a.stdout+a.stderr)[:500],'|',(b.stdout+b.stderr)[:500])
    print('   ',' / '.join(x.strip()[:150] for x in first))
if sys.argv[1]=='new':
    for f in sys.argv[2:]: test(new(f))
else:
    for i in sys.argv[2:] or sorted(os.listdir(S)): test(i)
