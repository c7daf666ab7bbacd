#!/usr/bin/env python3
"""make / confirm / measure planted bugs in a scratch copy of /repo
  seedtool.py make <spec.py>        (spec defines SEEDS = [dict(id,property,file,old,new,needs,what,demo)])
  seedtool.py confirm [id...]       patch applies, tests still pass, demo 0 without / nonzero with
  seedtool.py detect [id...]        run the check of the property against the patched copy"""
import json, os, subprocess, sys, shutil, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, 'seeded')
BASE = json.load(open('/opt/vp/BASELINE.json'))


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)


def copy(i):
    d = '/tmp/seedcopy_' + i
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True)
    sh('git checkout -q -- . ', d)
    return d


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns['SEEDS']:
        d = copy(s['id'])
        edits = s.get('edits') or [(s['file'], s['old'], s['new'])]
        for f, old, new in edits:
            p = os.path.join(d, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'pattern occurs', t.count(old)); break
            open(p, 'w').write(t.replace(old, new))
        else:
            out = os.path.join(SEED, s['id'])
            os.makedirs(out, exist_ok=True)
            open(out + '/patch.diff', 'w').write(sh('git diff', d).stdout)
            open(out + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
            open(out + '/demo.sh', 'w').write('#!/bin/bash\n# cwd: the repository; exits nonzero when the property is broken\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent-pycache PYTHONPATH="$PWD" TZ=UTC LC_ALL=C.UTF-8\nexec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
            os.chmod(out + '/demo.sh', 0o755)
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(out + '/meta.json', 'w'), indent=1)
        shutil.rmtree(d)


def confirm(i):
    d = copy(i)
    try:
        m = json.load(open('%s/%s/meta.json' % (SEED, i)))
        demo = '%s/%s/demo.sh' % (SEED, i)
        r0 = sh('bash ' + demo, d, timeout=300)
        a = sh('git apply %s/%s/patch.diff' % (SEED, i), d)
        if a.returncode: return i, 'PATCH FAILS ' + a.stdout
        r1 = sh('bash ' + demo, d, timeout=300)
        mine = []; f = None
        for l in open('%s/%s/patch.diff' % (SEED, i)):
            if l.startswith('--- a/'): f = l[6:].strip(); orig = sh('git show 2ebdab0:' + f, '/repo').stdout.splitlines()
            elif l.startswith('-') and not l.startswith('---') and l[1:].rstrip('\n') not in orig: mine.append(l[1:].strip())
        x = '/tmp/seedx_%s.xml' % i
        sh('/opt/venv/bin/python -m pytest -q -W ignore -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s pyswagger/tests' % x, d,
           dict(PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent', PYTHONHASHSEED='0'))
        sh('/usr/bin/python3 /opt/vp/results.py /tmp/seedx_%s.json junit:%s' % (i, x))
        o = json.load(open('/tmp/seedx_%s.json' % i))
        os.unlink(x); os.unlink('/tmp/seedx_%s.json' % i)
        def passed(q):
            for k in ('passed', 'pass', 'stable'):
                if k in q: return set(q[k])
            return set(k for k, v in q.items() if v in ('pass', 'passed'))
        miss = sorted(passed(BASE) - passed(o))
        ok = r0.returncode == 0 and r1.returncode != 0 and not miss and not mine
        return i, '%s %s demo %d/%d missing %s %s' % ('OK ' if ok else 'BAD', m['property'], r0.returncode, r1.returncode, miss[:5] + mine, '' if ok else (r0.stdout[-300:] + r1.stdout[-300:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def detect(i, tier='quick'):
    d = copy(i)
    try:
        m = json.load(open('%s/%s/meta.json' % (SEED, i)))
        a = sh('git apply %s/%s/patch.diff' % (SEED, i), d)
        if a.returncode: return i, 'PATCH FAILS'
        r = sh('./check %s --tier %s' % (m['property'], tier), V, dict(VERIF_REPO=d, VERIF_EVIDENCE='/tmp/seed_ev_' + i, VERIF_SEED='1'), timeout=1000)
        shutil.rmtree('/tmp/seed_ev_' + i, ignore_errors=True)
        hit = re.search(r'VIOLATION property=%s\b.*' % m['property'], r.stdout)
        return i, '%s %s rc=%d %s' % ('CAUGHT' if r.returncode == 1 and hit else 'MISSED', m['property'], r.returncode, r.stdout[-400:].replace('\n', ' | ') )
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        make(args[0])
    else:
        ids = args or sorted(os.listdir(SEED))
        w = 4 if cmd == 'confirm' else 2
        with ThreadPoolExecutor(w) as ex:
            for i, r in ex.map(confirm if cmd == 'confirm' else detect, ids):
                print(i, r, flush=True)
