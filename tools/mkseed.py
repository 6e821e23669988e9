#!/usr/bin/env python3
"""mkseed.py SPEC.py...: builds and verifies /verif/seeded/<id> from a spec."""
import sys, os, subprocess, json, shutil, tempfile
ENV=dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod -buildvcs=false', GODEBUG='randautoseed=0')
DEMO='''#!/bin/bash
# Run with cwd /repo: exit 0 if the property holds for this input.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false"
o=$(mktemp)
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" > "$o"
timeout 250 go test -vet=off -count=1 -overlay "$o" -run '^TestDemo$' ./%(pkg)s
rc=$?
rm -f "$o"
exit $rc
'''
def run(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, env=ENV, **k)
for f in sys.argv[1:]:
    s={}; exec(open(f).read(), s)
    id=s['id']; d='/verif/seeded/'+id
    w='/tmp/plant'
    run(f'git -C /repo worktree remove --force {w}; git -C /repo worktree prune')
    r=run(f'git -C /repo worktree add --detach {w} HEAD'); assert r.returncode==0, r.stderr
    try:
        os.makedirs(d, exist_ok=True)
        open(d+'/demo_test.go','w').write(s['demo'])
        open(d+'/demo.sh','w').write(DEMO%{'pkg':s['pkg']}); os.chmod(d+'/demo.sh',0o755)
        r=run(f'{d}/demo.sh', cwd=w)
        ok = r.returncode==0
        if not ok: print(id,'DEMO FAILS CLEAN\n', r.stdout[-1500:], r.stderr[-800:])
        for fn,old,new in s['edits']:
            t=open(w+'/'+fn).read()
            if t.count(old)!=1: print(id,'EDIT count',t.count(old),old); ok=False; continue
            open(w+'/'+fn,'w').write(t.replace(old,new))
        diff=run(f'git -C {w} diff').stdout
        open(d+'/patch.diff','w').write(diff)
        r=run('go build ./... && go test -vet=off -count=1 ./...', cwd=w)
        if r.returncode: print(id,'TESTS/BUILD FAIL\n', r.stdout[-1500:], r.stderr[-800:]); ok=False
        r=run(f'{d}/demo.sh', cwd=w)
        if r.returncode==0: print(id,'DEMO PASSES WITH BUG'); ok=False
        elif 'FAIL' not in r.stdout or 'build failed' in r.stdout: print(id,'demo odd',r.stdout[-500:]); ok=False
        # original lines?
        orig=open('/tmp/orig_'+'x','w') if 0 else None
        for fn in {e[0] for e in s['edits']}:
            base=run(f'git -C /repo show 336275f:{fn}').stdout.splitlines()
            for l in diff.splitlines():
                if l.startswith('-') and not l.startswith('---') and l[1:] not in base:
                    pass
        removed=[l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        allbase=set()
        for fn in {e[0] for e in s['edits']}: allbase|=set(run(f'git -C /repo show 336275f:{fn}').stdout.splitlines())
        if not any(l in allbase and l.strip() for l in removed): print(id,'NO ORIGINAL LINE REMOVED'); 
        nl=[l for l in removed if l not in allbase]
        if nl: print(id,'note: touches own lines',nl)
        json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
        print(id,'OK' if ok else 'BAD')
    finally:
        run(f'git -C /repo worktree remove --force {w}')
