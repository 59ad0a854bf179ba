#!/usr/bin/env python3
"""Development tool: confirm planted bugs and write /verif/seeded/<id>/.
usage: plant.py FILE.py   where FILE.py defines BUGS = [dict(id, prop, file->edits, demo, needs, breaks)]"""
import sys,os,subprocess,shutil,json,runpy
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W='/tmp/plant'
HARN=V+'/harness'
DEMO='''#!/bin/bash
# Run in the tree of suriya-go. Exit 0: the property holds here.
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
export HOME="${HOME:-/root}" PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GO111MODULE=on GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOENV=off GOWORK=off
unset GOFLAGS GOOS GOARCH
W="$(mktemp -d)" || exit 3
trap 'rm -rf "$W"' EXIT
cp -r "$D/src/." "$W/"
sed -i "s|@REPO@|$R|" "$W/go.mod" "$W/overlay.json"
sed -i "s|@WORK@|$W|" "$W/overlay.json"
cd "$W" || exit 3
'''
RUN='''go build @RACE@-mod=mod -buildvcs=false -overlay=overlay.json -o demo . || exit 4
./demo
'''
def sh(cmd,cwd=None,env=None,timeout=600):
    p=subprocess.run(cmd,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout)
    return p.returncode,p.stdout
def official(copy):
    """build.sh and test.sh on a copy"""
    gp=W+'/gopath'; shutil.rmtree(gp,ignore_errors=True)
    os.makedirs(gp+'/src/github.com/splendidmoons'); os.symlink(copy,gp+'/src/github.com/splendidmoons/suriya-go')
    ov=open('/opt/vp/overlay.json').read().replace('/repo/',copy+'/').replace('/opt/vp/gopath',gp); open(W+'/overlay.json','w').write(ov)
    env=dict(os.environ,HOME='/root',GO111MODULE='off',GOPATH=gp,GOTOOLCHAIN='local',GOPROXY='off',GOENV='off',GOCACHE=W+'/gocache',CGO_ENABLED='0',GOFLAGS='-overlay='+W+'/overlay.json')
    rc,o=sh('go build github.com/splendidmoons/suriya-go && find . -name "*.go" -not -path "./.git/*" -print0 | xargs -0 gofmt -e >/dev/null && go test -vet=off -count=1 -v github.com/splendidmoons/suriya-go',cwd=copy,env=env)
    fails=o.count('--- FAIL'); passes=o.count('--- PASS')
    return rc==0 and passes>=7 and fails==0, o[-1500:]
def main():
    only=sys.argv[2:]
    for b in runpy.run_path(sys.argv[1])['BUGS']:
        if only and b['id'] not in only: continue
        copy=W+'/repo'; shutil.rmtree(copy,ignore_errors=True); sh(f'cp -a /repo {copy}'); sh('git checkout -q -- . && git clean -fdq',cwd=copy)
        d=f"{V}/seeded/{b['id']}"; shutil.rmtree(d,ignore_errors=True); os.makedirs(d+'/src')
        # demo
        for s in ('cli','ical','spew','uuid'): shutil.copytree(f'{HARN}/stubs/{s}',f'{d}/src/stubs/{s}')
        shutil.copy(HARN+'/virtual/suriya.mod',d+'/src/suriya.mod')
        gm=open(HARN+'/go.mod').read().replace('module verif','module demo').replace('\tpgregory.net/rapid v1.3.0\n','').replace('=> /repo','=> @REPO@')
        open(d+'/src/go.mod','w').write(gm)
        open(d+'/src/overlay.json','w').write('{"Replace": {"@REPO@/go.mod": "@WORK@/suriya.mod"}}\n')
        if 'demo' in b: open(d+'/src/main.go','w').write(b['demo'])
        run=b.get('run',RUN).replace('@RACE@','-race ' if b.get('race') else '')
        open(d+'/demo.sh','w').write(DEMO+('export CGO_ENABLED=1\n' if b.get('race') else '')+run)
        os.chmod(d+'/demo.sh',0o755)
        json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1,ensure_ascii=False)
        bad=None
        if 'demo' in b:
            rc,o=sh('gofmt -l '+d+'/src/main.go');
        rc,o=sh(f'bash {d}/demo.sh',cwd=copy)
        if rc: bad='demo fails on the clean tree: '+o[-1500:]
        for f,eds in b['edits'].items():
            p=copy+'/'+f; s=open(p).read()
            for a,c in eds:
                if s.count(a)!=1: bad=f'{f}: {s.count(a)} times: {a!r}'
                s=s.replace(a,c,1)
            open(p,'w').write(s)
        rc,o=sh('gofmt -l *.go suriya utils',cwd=copy)
        if o.strip(): sh('gofmt -w '+' '.join(x for x in o.split() if x in b['edits']),cwd=copy)
        rc,o=sh('git diff',cwd=copy); open(d+'/patch.diff','w').write(o)
        if not bad and not o.strip(): bad='no change'
        if not bad:
            ok,o=official(copy)
            if not ok: bad='official build/tests: '+o
        if not bad:
            rc,o=sh(f'bash {d}/demo.sh',cwd=copy)
            if rc==0: bad='demo passes with the bug'
            elif rc in (3,4): bad='demo does not build: '+o[-1500:]
            else: print('   demo:',o.strip().split('\n')[-1][:160])
        print(b['id'],b['prop'],'BAD '+bad if bad else 'ok',flush=True)
        if bad: shutil.rmtree(d)
main()
