"""mutation testing of the checks themselves.

mutate.py gen OUT.json                 all mutants of pyswagger outside of spec/ and tests
mutate.py tests IN.json OUT.json       those which pass the tests of the repository
mutate.py checks IN.json OUT.jsonl [N] run checks (bound 0, then quick) on survivors of the tests, N of them
Scratch copies live in /tmp/mut/ and are removed.
"""
import ast
import warnings
import json
import os
import random
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
import threading

warnings.simplefilter('ignore')
REPO = '/repo'
TOP = '/tmp/mut'
PY = '/opt/venv/bin/python'


def files():
    for d, ds, fs in os.walk(os.path.join(REPO, 'pyswagger')):
        ds[:] = [x for x in ds if x not in ('tests', 'spec', '__pycache__')]
        for f in fs:
            if f.endswith('.py'):
                yield os.path.relpath(os.path.join(d, f), REPO)


CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}


def gen():
    out = []
    for f in sorted(files()):
        src = open(os.path.join(REPO, f)).read()
        lines = src.split('\n')
        offs = [0]
        for l in lines:
            offs.append(offs[-1] + len(l.encode()) + 1)
        raw = src.encode()

        def pos(l, c):
            return offs[l - 1] + c

        def span(n):
            return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

        def add(n, a, b, new, what):
            old = raw[a:b].decode()
            if old != new:
                out.append(dict(file=f, line=n.lineno, a=a, b=b, old=old, new=new, what=what))

        tree = ast.parse(src)
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                docs.add(id(n.body[0].value))
                docs.add(id(n.body[0]))
        infn = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef):
                for m in ast.walk(n):
                    infn.add(id(m))
        for n in ast.walk(tree):
            if id(n) in docs:
                continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                l, r = n.left, n.comparators[0]
                a, b = span(l)[1], span(r)[0]
                op = raw[a:b].decode()
                if '(' not in op and ')' not in op and '\n' not in op:
                    add(n, a, b, ' %s ' % CMP[type(n.ops[0])], 'compare')
                    if type(n.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                        add(n, a, b, {'<': ' > ', '<=': ' > ', '>': ' < ', '>=': ' < '}[op.strip()], 'compare2')
            elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
                a, b = span(n.test)
                add(n, a, b, 'True' if not isinstance(n, ast.While) else 'False', 'cond true')
                if not isinstance(n, ast.While):
                    add(n, a, b, 'False', 'cond false')
                if not isinstance(n.test, ast.Compare):
                    add(n, a, b, 'not (%s)' % raw[a:b].decode(), 'cond not')
            elif isinstance(n, ast.BoolOp):
                for i in range(len(n.values)):
                    # drop one operand
                    a, b = span(n)
                    rest = [raw[slice(*span(v))].decode() for j, v in enumerate(n.values) if j != i]
                    add(n, a, b, ('(%s)' % (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % r for r in rest)), 'drop operand')
            elif isinstance(n, ast.Constant) and id(n) in infn:
                a, b = span(n)
                if n.value is True or n.value is False:
                    add(n, a, b, str(not n.value), 'const')
                elif n.value is None:
                    pass
                elif isinstance(n.value, int):
                    add(n, a, b, str(n.value + 1), 'const')
                    if n.value:
                        add(n, a, b, '0', 'const')
                elif isinstance(n.value, str) and '\n' not in raw[a:b].decode():
                    if n.value:
                        add(n, a, b, "''", 'string empty')
                    add(n, a, b, "'XX'", 'string')
            elif isinstance(n, ast.Call):
                fn = n.func
                if isinstance(fn, ast.Attribute) and fn.attr in ('lower', 'upper', 'strip', 'rstrip', 'lstrip', 'copy', 'lower', 'decode', 'encode', 'items', 'keys', 'capitalize', 'format'):
                    a, b = span(n)
                    add(n, a, b, raw[slice(*span(fn.value))].decode(), 'drop call')
                elif len(n.args) == 1 and not n.keywords and isinstance(fn, (ast.Name, ast.Attribute)):
                    a, b = span(n)
                    add(n, a, b, '(%s)' % raw[slice(*span(n.args[0]))].decode(), 'call to arg')
                if len(n.keywords) >= 1 and n.keywords[-1].arg:
                    for i, k in enumerate(n.keywords):
                        if i == 0 and not n.args:
                            continue
                        prev = n.keywords[i - 1].value if i else n.args[-1]
                        add(n, span(prev)[1], span(k.value)[1], '', 'drop keyword')
                if len(n.args) == 2 and not n.keywords:
                    a0, a1 = n.args
                    if not any(isinstance(x, ast.Starred) for x in n.args):
                        add(n, span(a0)[0], span(a1)[1], '%s, %s' % (raw[slice(*span(a1))].decode(), raw[slice(*span(a0))].decode()), 'swap args')
                        add(n, span(a0)[1], span(a1)[1], '', 'drop arg')
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                a, b = span(n)
                add(n, a, b, '(%s)' % raw[slice(*span(n.operand))].decode(), 'drop not')
            elif isinstance(n, ast.BinOp):
                l, r = n.left, n.right
                a, b = span(n)
                if isinstance(n.op, (ast.Add, ast.Sub)):
                    add(n, a, b, '(%s)' % raw[slice(*span(l))].decode(), 'left operand')
                    add(n, a, b, '(%s)' % raw[slice(*span(r))].decode(), 'right operand')
            elif isinstance(n, (ast.Break,)):
                a, b = span(n)
                add(n, a, b, 'continue', 'break')
            elif isinstance(n, ast.Continue):
                a, b = span(n)
                add(n, a, b, 'break', 'continue')
                add(n, a, b, 'pass', 'continue')
            elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant)):
                a, b = span(n.value)
                add(n, a, b, 'None', 'return None')
            elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                a, b = span(n)
                add(n, a, b, raw[slice(*span(n.value))].decode(), 'drop slice')
            if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)) and id(n) in infn:
                a, b = span(n)
                add(n, a, b, 'pass', 'delete ' + type(n).__name__)
            if isinstance(n, ast.AugAssign):
                pass
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and id(n) in infn:
                pass
    seen = set()
    res = []
    for m in out:
        k = (m['file'], m['a'], m['b'], m['new'])
        if k in seen:
            continue
        seen.add(k)
        raw = open(os.path.join(REPO, m['file']), 'rb').read()
        new = raw[:m['a']] + m['new'].encode() + raw[m['b']:]
        try:
            compile(new, m['file'], 'exec')
        except SyntaxError:
            continue
        m['id'] = len(res)
        res.append(m)
    return res


_free = []
_lock = threading.Lock()


def slot():
    with _lock:
        if _free:
            return _free.pop()
        i = slot.n
        slot.n += 1
    d = '%s/w%d' % (TOP, i)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git', '__pycache__'), symlinks=True)
    return d


slot.n = 0


def apply(d, m):
    raw = open(os.path.join(REPO, m['file']), 'rb').read()
    with open(os.path.join(d, m['file']), 'wb') as f:
        f.write(raw[:m['a']] + m['new'].encode() + raw[m['b']:])


def undo(d, m):
    shutil.copy(os.path.join(REPO, m['file']), os.path.join(d, m['file']))


def sh(cmd, cwd, env, timeout):
    e = dict(os.environ)
    e.update(env)
    p = subprocess.Popen(['bash', '-c', cmd], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return 99, 'timeout'


def tests(m):
    d = slot()
    try:
        apply(d, m)
        rc, o = sh('ulimit -v 6000000; %s -m pytest -q -x -W ignore -p no:cacheprovider --timeout=60 pyswagger/tests 2>&1 | tail -3; exit ${PIPESTATUS[0]}' % PY, d, dict(PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0'), 150)
        return rc == 0
    finally:
        undo(d, m)
        with _lock:
            _free.append(d)


ALL = ['C%02d' % i for i in range(1, 34)]
NEAR = {
    'core.py': 'C01 C05 C07 C17 C32 C22 C24 C06 C26 C18 C27 C02 C31',
    'errs.py': 'C04 C26', 'getter.py': 'C06 C05 C31 C32 C25', 'io.py': 'C08 C09 C11 C16 C17 C18 C20 C21 C12 C10 C29 C30 C22 C15',
    'resolve.py': 'C05 C06 C32 C03', 'scan.py': 'C01 C03 C04 C25 C26', 'utils.py': 'C01 C03 C05 C06 C07 C15 C16 C30 C09 C04 C14 C02 C31 C24 C29',
    'render.py': 'C24', 'codec.py': 'C17 C12 C16', 'cycle_detector.py': 'C04', 'type_reducer.py': 'C07',
    'upgrade.py': 'C25 C31 C02', 'merge.py': 'C13 C14 C27 C03', 'patch_obj.py': 'C27 C08 C19', 'resolve': 'C03 C04',
    'tornado.py': 'C20 C18 C29 C21', 'requests.py': 'C20 C18 C29 C21', 'flask.py': 'C20 C18 C29 C21', 'client.py': 'C18 C29 C21 C22 C20',
    'auth.py': 'C19 C21 C22', '__init__.py': 'C28 C13 C14 C08 C10 C12 C15', 'comm.py': 'C13 C14 C10', '_array.py': 'C10 C13 C08', '_model.py': 'C14 C12 C13 C28',
}


def order(m):
    b = os.path.basename(m['file'])
    near = NEAR.get(b, 'C13 C14 C15 C12 C08').split()
    return near, [c for c in ALL if c not in near and c != 'C23']


def checks(m, stage):
    d = slot()
    ev = d + '.ev'
    try:
        apply(d, m)
        near, rest = (m['checks'], []) if m.get('checks') else order(m)
        plan = [(c, os.environ.get('MUT_BOUND', '0')) for c in near] + ([(c, '0') for c in rest] if stage else [])
        t = time.time()
        for c, b in plan:
            env = dict(VERIF_REPO=d, VERIF_EVIDENCE=ev, MC_PROCS='1' if b else '2', VERIF_SEED='1', PYTHONDONTWRITEBYTECODE='1')
            if b:
                env['MC_BOUND'] = b
            rc, o = sh('./check %s --tier quick' % c, '/verif', env, int(os.environ.get('MUT_TIMEOUT', '400')))
            if rc:
                return dict(m, caught=c, bound=b, rc=rc, msg=[l for l in o.split('\n') if l][:1] if rc == 1 else o[-300:], t=round(time.time() - t))
        return dict(m, caught=None, t=round(time.time() - t))
    finally:
        undo(d, m)
        shutil.rmtree(ev, ignore_errors=True)
        with _lock:
            _free.append(d)


def main():
    os.makedirs(TOP, exist_ok=True)
    if sys.argv[1] == 'gen':
        r = gen()
        json.dump(r, open(sys.argv[2], 'w'))
        by = {}
        for m in r:
            by[m['file']] = by.get(m['file'], 0) + 1
        print(len(r), by)
        return
    ms = json.load(open(sys.argv[2]))
    n = int(os.environ.get('MUT_PROCS', '8'))
    if sys.argv[1] == 'tests':
        with ThreadPoolExecutor(n) as ex:
            ok = list(ex.map(tests, ms))
        r = [m for m, o in zip(ms, ok) if o]
        json.dump(r, open(sys.argv[3], 'w'))
        print(len(ms), 'mutants', len(r), 'pass the tests')
    else:
        done = set()
        if os.path.exists(sys.argv[3]):
            done = set(json.loads(l)['id'] for l in open(sys.argv[3]))
        if len(sys.argv) > 4:
            random.Random(7).shuffle(ms)
            ms = ms[:int(sys.argv[4])]
        ms = [m for m in ms if m['id'] not in done]
        out = open(sys.argv[3], 'a')

        def one(m):
            r = checks(m, 0)
            with _lock:
                out.write(json.dumps(r) + '\n')
                out.flush()
        with ThreadPoolExecutor(n) as ex:
            list(ex.map(one, ms))
    shutil.rmtree(TOP, ignore_errors=True)


main()
