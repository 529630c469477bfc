#!/usr/bin/env python3
"""Plants the bugs described in a list file into /verif/seeded.

python3 tools/plant.py LIST.py [ids]
LIST defines B = [dict(id, property, edits=[(file, old, new)], demo, needs,
what_it_breaks), ...].  Each bug is confirmed in a scratch copy: the patch
applies to HEAD, replaces only lines of the base commit, the stable tests
pass, the demonstration passes without and fails with it.  Prints whether the
check of the property reports it.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/plant'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True,
                          **kw)


def main():
    lst = runpy.run_path(sys.argv[1])['B']
    only = set(sys.argv[2:])
    base = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.strip()
    for b in lst:
        if only and b['id'] not in only:
            continue
        d = f'{W}/{b["id"]}'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(W, exist_ok=True)
        sh(f'cp -a /repo {d}')
        err = []
        for f, old, new in b['edits']:
            p = os.path.join(d, f)
            if not os.path.exists(p):
                p = os.path.join(d, 'causets', f)
            src = open(p, newline='').read()
            if '\r\n' in src:
                old = old.replace('\n', '\r\n')
                new = new.replace('\n', '\r\n')
            if src.count(old) != 1:
                err.append(f'{f}: {src.count(old)} matches of {old[:40]!r}')
                continue
            open(p, 'w', newline='').write(src.replace(old, new))
        out = os.path.join(HERE, 'seeded', b['id'])
        os.makedirs(out, exist_ok=True)
        diff = subprocess.run(['git', '-C', d, 'diff'],
                              capture_output=True).stdout
        if not diff:
            err.append('empty diff')
        # removed lines must be original lines
        cur = None
        nrem = 0
        for f in sorted({e[0] for e in b['edits']}):
            bl = sh(f'git -C {d} blame -s -l HEAD -- {f}').stdout.split('\n')
            own = [not l.lstrip('^').startswith(base[:39]) for l in bl]
            dd = sh(f'git -C {d} diff -U0 -- {f}').stdout.split('\n')
            for l in dd:
                if l.startswith('@@'):
                    a = l.split()[1][1:].split(',')
                    s, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    nrem += n
                    for k in range(s, s + n):
                        if own[k - 1]:
                            err.append(f'{f}:{k} was added by a fix commit')
        if not nrem:
            err.append('no original line replaced')
        open(f'{out}/patch.diff', 'wb').write(diff)
        open(f'{out}/demo.py', 'w').write(b['demo'].lstrip('\n'))
        open(f'{out}/demo.sh', 'w').write(
            '#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
            'exec timeout 200 /opt/venv/bin/python '
            '"$(dirname "$0")/demo.py"\n')
        os.chmod(f'{out}/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'],
                   'what_it_breaks': b['what_it_breaks']},
                  open(f'{out}/meta.json', 'w'), indent=1)
        # demo on unchanged and changed, tests on changed, in /repo itself
        r0 = sh(f'bash {out}/demo.sh', cwd='/repo')
        if r0.returncode:
            err.append('demo fails unchanged: ' + r0.stderr[-300:])
        ap = sh(f'git -C /repo apply {out}/patch.diff')
        try:
            if ap.returncode:
                err.append('apply: ' + ap.stderr)
            r1 = sh(f'bash {out}/demo.sh', cwd='/repo')
            if r1.returncode == 0:
                err.append('demo passes with the change')
            tail = r1.stderr.strip().split('\n')[-1]
            sh(f'bash /opt/vp/test.sh {W}/out.json', cwd='/repo')
            base_t = json.load(open('/opt/vp/BASELINE.json'))
            res = json.load(open(f'{W}/out.json'))
            names = base_t.get('stable') or base_t.get('passed') or base_t
            ok = set(res.get('passed', res))
            miss = [t for t in names if t not in ok] \
                if isinstance(names, list) else ['?']
            if miss:
                err.append(f'tests fail: {miss}')
        finally:
            sh('git -C /repo checkout -- .')
        env = dict(os.environ, VERIF_REPO=d)
        c = sh(f'python3-vt {HERE}/sa/main.py {b["property"]} quick',
               env=env, cwd=HERE)
        caught = c.returncode == 1 and f'VIOLATION property=' in c.stdout
        shutil.rmtree(d, ignore_errors=True)
        print(f'{b["id"]:28} {b["property"]} demo: {tail[:60]:60} '
              f'{"CAUGHT" if caught else "missed rc=%d" % c.returncode}')
        for e in err:
            print('   ERROR', e)


main()
