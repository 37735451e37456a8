#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the specs in seeds.py and tries them out in a scratch copy of /repo.

usage: mkseeds.py [-c] ID... | all     (-c: also run the property's check against the planted bug)
"""
import os, sys, json, subprocess, shutil, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS
SCR = '/tmp/seedrepo'
ENV = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local',
           GOPROXY='off', GOWORK='off', GOFLAGS='-mod=mod', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build')
DEMO_SH = '''#!/bin/bash
# runs demo.go against the repository in the current directory: exit 0 if the property held
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/demo.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go build RACEFLAG-overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo || exit 99
cd "$tmp" && timeout 200 ./demo
'''
def sh(cmd, cwd=None, timeout=1200):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr
def reset():
    sh(f'git -C {SCR} checkout -q -- . && git -C {SCR} clean -fdq')
def tests():
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('stable_pass') or base.get('stable') or base.get('passed') or base
    c, o = sh('go test -json -vet=off -count=1 ./...', SCR)
    bad = set()
    for l in o.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get('Action') == 'fail': bad.add(str(e.get('Test')) )
    return c, sorted(bad)
def check(prop):
    work = '/tmp/seedwork'
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    gm = open(HERE + '/../harness/go.mod').read().replace('=> /repo', '=> ' + SCR)
    open(work + '/go.mod', 'w').write(gm)
    shutil.copy(HERE + '/../harness/go.sum', work)
    race = '-race' if prop in ('C17', 'C18') else ''
    c, o = sh(f'GOFLAGS= go build {race} -tags verif -buildvcs=false -mod=mod -modfile={work}/go.mod -o {work}/h .', HERE + '/../harness')
    if c: return 3, o
    r = sh(f'VERIF_SCRATCH={work} {work}/h run -prop {prop} -tier quick -seed 1 -evidence {work}/ev.json -replays {work}/rp -known {HERE}/../known_findings.txt', work)
    shutil.rmtree(work, ignore_errors=True)
    return r
def main():
    args = sys.argv[1:]
    chk = '-c' in args
    args = [a for a in args if a != '-c']
    if os.path.exists(SCR): shutil.rmtree(SCR)
    sh(f'cp -a /repo {SCR}'); reset()
    ids = list(SEEDS) if args == ['all'] else args
    for i in ids:
        s = SEEDS[i]
        d = f'{HERE}/../seeded/{i}'
        reset()
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.go', 'w').write(s['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(DEMO_SH.replace('RACEFLAG', '-race ' if s.get('race') else ''))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        c0, o0 = sh(f'bash {d}/demo.sh', SCR)
        ok = True
        for f, old, new in s['edits']:
            t = open(f'{SCR}/{f}').read()
            if t.count(old) != 1:
                print(i, 'EDIT DOES NOT APPLY', f, t.count(old)); ok = False; break
            open(f'{SCR}/{f}', 'w').write(t.replace(old, new))
        if not ok: continue
        diff = subprocess.run(f'git -C {SCR} diff', shell=True, capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
        cb, ob = sh('go build ./...', SCR)
        ct, bad = tests()
        c1, o1 = sh(f'bash {d}/demo.sh', SCR)
        st = 'GOOD' if (c0 == 0 and cb == 0 and c1 not in (0, 99) and not bad) else 'BAD'
        msg = f'{i} {s["prop"]}: {st} demo clean={c0} build={cb} failing tests={bad} demo patched={c1}'
        if chk and st == 'GOOD':
            cc, oc = check(s['prop'])
            line = [l for l in oc.splitlines() if l.startswith('case ')]
            msg += f' CHECK={"CAUGHT" if cc == 1 else "MISSED" if cc == 0 else cc} {line[0][:150] if line else ""}'
        print(msg, flush=True)
        if st == 'BAD': print('   clean:', o0[-300:], '\n   build:', ob[-300:], '\n   patched:', o1[-300:])
        reset()
    shutil.rmtree(SCR)
main()
