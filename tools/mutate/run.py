#!/usr/bin/env python3
"""Mutation run: how sensitive are the monitors?  usage: run.py OUT.jsonl [-j N] [-k substring]  (results append; done mutants are skipped)

Every mutant is built through an overlay (nothing in /repo changes) and the properties' quick
checks run on it, first with few cases, until one reports a violation."""
import os, random, sys, json, subprocess, shutil, re, glob, hashlib
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(HERE))
ENV = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off',
           GOWORK='off', GOFLAGS='', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build')
ALL = ['C%02d' % i for i in range(1, 39)]
FIRST = {'builder': 'C28 C07', 'checks': 'C31 C28 C09', 'column_access': 'C09 C01 C05', 'column_header': 'C29 C08', 'concat': 'C10 C11 C31',
         'conversions': 'C08 C16', 'csv_parsing': 'C12 C14 C17', 'csv_writing': 'C13 C14 C17', 'dataframe': 'C06 C08 C07', 'dataframe_internals': 'C15 C06 C11',
         'dense_gonum_batching': 'C09', 'float_batching': 'C09 C02', 'inplace': 'C05 C15 C08', 'print': 'C30', 'raw_data': 'C08 C31 C07 C28 C06',
         'row_iterators': 'C09', 'view': 'C01 C03 C04 C02 C08', 'auto_preprocessor': 'C23 C22 C24', 'float_imputer': 'C19 C24', 'hash_encoder': 'C16 C24',
         'interfaces': 'C19 C20 C21', 'one_hot': 'C21 C24', 'scaler': 'C20 C24', 'evaluation': 'C27', 'linear_regression': 'C25 C26 C24 C22',
         'asserts': 'C32', 'group_indexer': 'C32 C02', 'string_q': 'C17', 'utils': 'C32 C01'}
H = '/tmp/mutwork/harness' # the harness as it was when the run started
def sh(cmd, timeout, cwd=None):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout, errors='replace')
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
def one(m):
    mid = m['id']
    work = f'/tmp/mutwork/{mid}'
    os.makedirs(work, exist_ok=True)
    try:
        src = open(m['File'], 'rb').read()
        new = src[:m['Start']] + m['New'].encode() + src[m['End']:]
        open(work + '/m.go', 'wb').write(new)
        json.dump({'Replace': {m['File']: work + '/m.go'}}, open(work + '/o.json', 'w'))
        for f in ('go.mod', 'go.sum'): shutil.copy(f'{V}/harness/{f}', work)
        c, o = sh(f'go build -vet=off -tags verif -overlay {work}/o.json -buildvcs=false -mod=mod -modfile={work}/go.mod -o {work}/h .', 600, H)
        if c:
            c, o = sh(f'go build -tags verif -overlay {work}/o.json -buildvcs=false -mod=mod -modfile={work}/go.mod -o {work}/h .', 600, H)
        if c: return dict(m, verdict='unbuildable', out=o[-300:])
        base = os.path.basename(m['File'])[:-3]
        order = FIRST.get(base, '').split()
        rest = [p for p in ALL if p not in order]
        strange = {}
        for stage, props in (('-maxcases 3000', order), ('-maxcases 800', rest), ('-maxcases 30000', order)):
            for p in props:
                if p in ('C17', 'C18'): # slow
                    pas = {'-maxcases 3000': '-maxcases 300', '-maxcases 800': '-maxcases 60'}.get(stage, '-maxcases 600')
                else: pas = stage
                c, o = sh(f'VERIF_SCRATCH={work} nice -n 5 timeout 300 {work}/h run -workers 1 {pas} -prop {p} -seed 1 -evidence {work}/ev.json -replays {work}/rp -known {V}/known_findings.txt', 400, work)
                if c == 1:
                    l = [x for x in o.splitlines() if x.startswith('case ')]
                    return dict(m, verdict='caught', by=p, stage=stage, msg=(l[0][:200] if l else o[-200:]))
                if c != 0: strange[p] = [c, o[-300:]]
        return dict(m, verdict='survived', strange=strange)
    except Exception as e:
        return dict(m, verdict='error', out=repr(e))
    finally:
        shutil.rmtree(work, ignore_errors=True)
def main():
    shutil.rmtree(H, ignore_errors=True); shutil.copytree(V + '/harness', H)
    out = sys.argv[1]; a = sys.argv[2:]
    j = int(a[a.index('-j') + 1]) if '-j' in a else 4
    k = a[a.index('-k') + 1] if '-k' in a else ''
    files = [f for d in ('dataframe', 'preprocessing', 'algorithms', 'utils') for f in sorted(glob.glob(f'/repo/{d}/*.go')) if not f.endswith('_test.go') and 'verif_' not in f]
    c, o = sh(f'cd {HERE} && go run . ' + ' '.join(files), 300)
    ms = []
    for l in o.splitlines():
        m = json.loads(l)
        m['id'] = hashlib.sha1((m['File'] + m['Func'] + m['Kind'] + str(m['Start']) + m['New']).encode()).hexdigest()[:12]
        if m['Func'] in ('debugPrint', 'printableDataUID', 'PrintUIDs', 'resetStructureUID', 'fillBlanks') or 'debugPrint' in m['Kind']: continue
        if k in m['File'] + ':' + m['Func']: ms.append(m)
    done = set()
    if os.path.exists(out): done = {json.loads(l)['id'] for l in open(out)}
    ms = [m for m in ms if m['id'] not in done]
    random.Random(1).shuffle(ms)
    print(len(ms), 'mutants', flush=True)
    with open(out, 'a') as f, ThreadPoolExecutor(j) as ex:
        for fu in as_completed([ex.submit(one, m) for m in ms]):
            r = fu.result()
            f.write(json.dumps(r) + '\n'); f.flush()
main()
