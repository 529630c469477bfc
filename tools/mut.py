"""Development aid: run checks on edited copies of the repository.
usage: mut.py LIST.py [name...]; LIST.py defines M = [(name, file, old, new,
'C01 C02', 'bad'|'eq'), ...]; several edits: old and new are lists."""
import os, shutil, subprocess, sys, concurrent.futures as cf
ns = {}
exec(open(sys.argv[1]).read(), ns)
sel = set(sys.argv[2:])


def one(m):
    name, file, old, new, props, kind = m
    d = '/tmp/muts/w_%s' % name
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'))
    olds = old if isinstance(old, list) else [old]
    news = new if isinstance(new, list) else [new]
    files = file if isinstance(file, list) else [file] * len(olds)
    for f, o, n in zip(files, olds, news):
        p = os.path.join(d, f)
        s = open(p).read()
        if o not in s:
            return '%-28s PATTERN NOT FOUND' % name
        open(p, 'w').write(s.replace(o, n, 1))
    out = []
    for pr in props.split():
        r = subprocess.run(['python3-vt', os.environ.get('SA', '/verif') + '/sa/main.py', pr, 'quick'],
                           env=dict(os.environ, VERIF_REPO=d, VERIF_SEED='1'),
                           capture_output=True, text=True, cwd=os.environ.get('SA', '/verif'))
        t = r.stdout.splitlines()
        w = [l for l in t if l.startswith('FINDING') or 'BROKEN' in l]
        u = [l for l in t if l.startswith('UNDECIDED')]
        verdict = {0: 'quiet', 1: 'CAUGHT', 3: 'BROKEN'}.get(r.returncode,
                                                             'rc%d' % r.returncode)
        out.append('%s:%s' % (pr, verdict) + (' (%d undecided)' % len(u)
                                              if u else ''))
        if kind == 'bad' and r.returncode != 1 or kind == 'eq' and \
                r.returncode != 0:
            out.append('  <<<<<< ' + (w + u + [''])[0][:150])
            if r.returncode == 1:
                out.append('\n' + '\n'.join(t)[-900:])
        elif w and kind == 'bad':
            out.append(w[0][:70])
    shutil.rmtree(d, ignore_errors=True)
    return '%-28s %s' % (name, ' '.join(out))


ms = [m for m in ns['M'] if not sel or m[0] in sel]
with cf.ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "6"))) as ex:
    for r in ex.map(one, ms):
        print(r, flush=True)
