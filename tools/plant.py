#!/usr/bin/env python3
"""plant.py FILE...: each FILE defines ID, PROP, NEEDS, WHAT, EDITS=[(path, old, new)], DEMO (go body)."""
import sys, os, subprocess, json, shutil, re, runpy
HDR='''package main

import (
	"fmt"
	"os"
%s
)

func check(ok bool, what ...any) {
	if !ok {
		fmt.Println(append([]any{"FAIL:"}, what...)...)
		os.Exit(1)
	}
}
'''
DEMOSH='''#!/bin/bash
# exit 0: behaves as it should; run in the root of the repository
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/demo.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo || exit 2
timeout 120 "$tmp/demo"
'''
def sh(*a,**k): return subprocess.run(a,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def plant(f):
    b=runpy.run_path(f)
    wd='/tmp/work/wt-'+b['ID']
    shutil.rmtree(wd,ignore_errors=True)
    shutil.copytree('/repo',wd)
    for p,o,n in b['EDITS']:
        s=open(f'{wd}/{p}').read()
        if s.count(o)!=1: print(b['ID'],'EDIT count',s.count(o),p,repr(o[:60])); return False
        open(f'{wd}/{p}','w').write(s.replace(o,n))
    d=sh('git','diff',cwd=wd).stdout
    r=sh('go','build','./parser/...','./jsonmatcher/...','./sampler/...','./aqlgraph/...','./cmd/...',cwd=wd); v=sh('go','vet','./parser/...','./jsonmatcher/...','./sampler/...',cwd=wd)
    if r.returncode: print(b['ID'],'BUILD',r.stdout); return False
    t=sh('go','test','-vet=off','-count=1','-exec','/bin/bash /opt/vp/testexec.sh','./parser/...','./jsonmatcher/...','./sampler/...',cwd=wd)
    if t.returncode: print(b['ID'],'TESTS FAIL',[l for l in t.stdout.splitlines() if 'FAIL' in l][:5]); shutil.rmtree(wd); return False
    out='/verif/seeded/'+b['ID']; os.makedirs(out,exist_ok=True)
    open(out+'/patch.diff','w').write(d)
    if 'DEMOSH' in b: open(out+'/demo.sh','w').write(b['DEMOSH'])
    else:
        open(out+'/demo.sh','w').write(DEMOSH)
        imps=b.get('IMPORTS',[]); body=b['DEMO']
        known={'jsonmatcher.':'github.com/flowchartsman/aql/jsonmatcher','parser.':'github.com/flowchartsman/aql/parser','ast.':'github.com/flowchartsman/aql/parser/ast','fmtmsg.':'github.com/flowchartsman/aql/parser/fmtmsg','sampler.':'github.com/flowchartsman/aql/sampler','aqlgraph.':'github.com/flowchartsman/aql/aqlgraph','strings.':'strings','time.':'time','sort.':'sort','sync.':'sync','errors.':'errors','reflect.':'reflect','json.':'encoding/json','exec.':'os/exec','filepath.':'path/filepath'}
        if 'want(' in body and 'func want' not in body:
            body='''
func want(q, doc string, yes bool) {
	m, err := jsonmatcher.NewMatcher(q)
	check(err == nil, q, err)
	got, err := m.Match([]byte(doc))
	check(err == nil && got == yes, q, "on", doc, "gave", got, err)
}
'''+body
        for k,p in known.items():
            if re.search(r'(?<![\w.])'+re.escape(k),body) and p not in imps: imps=imps+[p]
        src=HDR%('\n'.join('\t"%s"'%i for i in imps))+body
        if 'func main' not in body: src=HDR%('\n'.join('\t"%s"'%i for i in imps))+(body.split('//MAIN')[0] if '//MAIN' in body else ('' if 'func want' not in body else body.split('}\n',1)[0]+'}\n'))+ '\nfunc main() {\n'+(body.split('//MAIN')[1] if '//MAIN' in body else (body if 'func want' not in body else body.split('}\n',1)[1]))+'\n}\n'
        open(out+'/demo.go','w').write(src)
        sh('gofmt','-w',out+'/demo.go')
    os.chmod(out+'/demo.sh',0o755)
    json.dump({"property":b['PROP'],"needs":b['NEEDS'],"what_it_breaks":b['WHAT']},open(out+'/meta.json','w'),indent=1)
    c=sh('bash',out+'/demo.sh',cwd='/repo'); m=sh('bash',out+'/demo.sh',cwd=wd)
    ok=c.returncode==0 and m.returncode!=0 and m.returncode!=2
    print(b['ID'],b['PROP'],'clean',c.returncode,'patched',m.returncode,'OK' if ok else 'NOT OK '+c.stdout[:800]+m.stdout[:800])
    shutil.rmtree(wd)
    return ok
r=[plant(f) for f in sys.argv[1:]]
sys.exit(0 if all(r) else 1)
