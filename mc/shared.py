"""what threads share: a digest of everything reachable from the shared objects and from the globals of the code under test"""
import dis
import os
import pickle
import re
import signal
import sys
import threading
import traceback
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
ATOM = (int, float, complex, bool, str, bytes, type(None), type(Ellipsis), type(NotImplemented))
SKIP = (types.ModuleType, types.BuiltinFunctionType, types.CodeType, types.FrameType, threading.Thread, type(re.compile('')))
FUNCS = (types.FunctionType,)


def jit(on):
    """what the compiler of PyPy has compiled reports more or fewer lines than were executed: it has to be off where lines are counted"""
    try:
        import pypyjit
        pypyjit.set_param('default' if on else 'off')
    except ImportError:
        pass


def globals_of():
    return [(n, m) for n, m in sorted(sys.modules.items()) if m is not None and (n == 'pyswagger' or n.startswith('pyswagger.'))]


def digest(root):
    seen = {}
    out = []
    keep = []
    stack = []
    for n, m in globals_of():
        for k, v in sorted(m.__dict__.items()):
            if not k.startswith('__') and not isinstance(v, types.ModuleType):
                stack.append(v)
    stack.append(root)
    while stack:
        o = stack.pop()
        t = type(o)
        if t in ATOM:
            out.append(o if o == o else 'nan')
            continue
        i = id(o)
        if i in seen:
            out.append(('ref', seen[i][0]))
            continue
        # kept: what is made only for this look (ex. the tuple of defaults) would leave its id to the next one
        seen[i] = (len(seen), o)
        if t is list or t is tuple:
            out.append((t.__name__, len(o)))
            stack.extend(o)
            continue
        if t is dict:
            out.append(('dict', len(o)))
            for k, v in list(o.items()):
                stack.append(v)
                stack.append(k)
            continue
        if isinstance(o, SKIP):
            continue
        if t in FUNCS:
            out.append(o.__qualname__)
            if o.__defaults__:
                stack.append(o.__defaults__)
            if o.__kwdefaults__:
                stack.append(o.__kwdefaults__)
            for c in o.__closure__ or ():
                try:
                    stack.append(c.cell_contents)
                except ValueError:
                    out.append('empty')
            if o.__dict__:
                stack.append(o.__dict__)
            continue
        if isinstance(o, type):
            out.append(o.__qualname__)
            if o.__module__.startswith('pyswagger'):
                for k, v in sorted(o.__dict__.items()):
                    if k not in ('__dict__', '__weakref__', '__doc__', '__module__') and not k.startswith('_abc_'):
                        out.append(k)
                        stack.append(v)
            continue
        if t.__module__ == 'logging':
            continue
        out.append(t.__qualname__)
        if isinstance(o, types.MethodType):
            stack.append(o.__func__)
            stack.append(o.__self__)
            continue
        if isinstance(o, (staticmethod, classmethod)):
            stack.append(o.__func__)
            continue
        if t is property:
            for f in (o.fget, o.fset, o.fdel):
                stack.append(f)
            continue
        if isinstance(o, dict):
            for k, v in list(o.items()):
                stack.append(v)
                stack.append(k)
        elif isinstance(o, (list, tuple)):
            stack.extend(o)
        elif isinstance(o, (set, frozenset)):
            out.append(sorted(map(repr, o)))
        d = getattr(o, '__dict__', None)
        if type(d) is dict:
            keep.append(d)
            out.append(len(d))
            for k, v in list(d.items()):
                stack.append(v)
                out.append(k)
        for c in t.__mro__:
            sl = c.__dict__.get('__slots__', ())
            for k in ((sl,) if isinstance(sl, str) else sl):
                if k not in ('__dict__', '__weakref__'):
                    stack.append(getattr(o, k, None))
    return hash(tuple(repr(x) if type(x) is list else x for x in out)), len(seen)


def plain_name(n):
    """of an attribute: without the mangling of private ones"""
    return re.sub('^_[A-Za-z0-9]*?__', '', n).strip('_')


_lines = {}


def names_at(code, line):
    """attributes, globals and texts mentioned by a line of code"""
    if code not in _lines:
        m = {}
        cur = code.co_firstlineno
        for ins in dis.get_instructions(code):
            if ins.starts_line:
                cur = ins.starts_line
            if isinstance(ins.argval, str) and (ins.opcode in dis.hasname or ins.opcode in dis.hasfree or ins.opcode in dis.hasconst or 'METHOD' in ins.opname or 'ATTR' in ins.opname):
                m.setdefault(cur, set()).add(plain_name(ins.argval))
        _lines[code] = m
    return _lines[code].get(line, ())


def snapshot(root):
    """{id: (object, what it holds, names it is known by)} of everything shared"""
    out = {}
    val = lambda o: o if type(o) in ATOM else id(o)
    stack = [(root, '')]
    for n, m in globals_of():
        stack.extend((v, k) for k, v in m.__dict__.items() if not k.startswith('__') and not isinstance(v, types.ModuleType))
    while stack:
        o, name = stack.pop()
        if type(o) in ATOM or isinstance(o, SKIP) or type(o).__module__ == 'logging':
            continue
        if id(o) in out:
            out[id(o)][2].add(name)
            continue
        names = set([name])
        if type(o) in (list, tuple, set, frozenset) or isinstance(o, (list, tuple)):
            held = [val(x) for x in o]
            stack.extend((x, name) for x in o)
        elif isinstance(o, dict):
            held = [(val(k), val(v)) for k, v in list(o.items())]
            stack.extend((x, name) for kv in list(o.items()) for x in kv)
        elif type(o) in FUNCS:
            held = []
            for i, c in enumerate(o.__closure__ or ()):
                try:
                    held.append((o.__code__.co_freevars[i], val(c.cell_contents)))
                    stack.append((c.cell_contents, o.__code__.co_freevars[i]))
                except ValueError:
                    pass
            stack.append((o.__defaults__, o.__name__))
            stack.append((o.__dict__, o.__name__))
        elif isinstance(o, type) and not o.__module__.startswith('pyswagger'):
            continue
        elif isinstance(o, types.MethodType):
            held = []
            stack.extend([(o.__func__, name), (o.__self__, name)])
        else:
            held = []
        attrs = {}
        if not isinstance(o, (types.FunctionType, types.MethodType)):
            d = getattr(o, '__dict__', None)
            attrs = dict((k, v) for k, v in list(d.items()) if k not in ('__dict__', '__weakref__', '__doc__', '__module__') and not str(k).startswith('_abc_')) if d else {}
            for c in type(o).__mro__:
                sl = c.__dict__.get('__slots__', ())
                for k in ((sl,) if isinstance(sl, str) else sl):
                    if k not in ('__dict__', '__weakref__'):
                        attrs[k] = getattr(o, k, None)
        out[id(o)] = (o, held, names, dict((k, val(v)) for k, v in attrs.items()))
        stack.extend((v, k) for k, v in attrs.items())
    return out


def changed_names(a, b):
    """the names under which what differs between two snapshots is reached"""
    out = set()
    for i, (o, held, names, attrs) in a.items():
        if i not in b:
            continue
        _, h2, n2, at2 = b[i]
        if held != h2:
            out |= names | n2
        for k in set(attrs) | set(at2):
            if k not in attrs or k not in at2 or attrs[k] != at2[k]:
                out.add(k)
    return set(plain_name(str(n)) for n in out if n)


def written(env, body, grain, at):
    """names of what the body changes, looked at at the given points and at the end"""
    at = set(at)
    k = [0]
    last = [snapshot(env)]
    out = set()

    def look():
        s = snapshot(env)
        out.update(changed_names(last[0], s))
        last[0] = s

    def at_point(frame):
        if k[0] in at:
            look()
        k[0] += 1
    traced(body, grain, at_point)
    look()
    return out


def traced(body, grain, at_point):
    jit(False)
    roots = (os.path.join(REPO, 'pyswagger') + os.sep,)

    def local(frame, event, arg):
        if event == 'line':
            at_point(frame)
        return local

    def on_call(frame, event, arg):
        if not frame.f_code.co_filename.startswith(roots):
            return None
        if grain == 'call':
            at_point(frame)
            return None
        return local
    sys.settrace(on_call)
    try:
        return body()
    finally:
        sys.settrace(None)


def profile(env, body, grain='line'):
    """digests of the shared state at every point of the body running alone, and the names mentioned there"""
    hs, names = [], []
    jit(True)
    for _ in range(20):
        digest(env)

    def at_point(frame):
        jit(True)
        hs.append(digest(env)[0])
        jit(False)
        names.append(frozenset(names_at(frame.f_code, frame.f_lineno)) if grain == 'line' else frozenset().union(*[names_at(frame.f_code, n) for n in all_lines(frame.f_code)]))
    r = traced(body, grain, at_point)
    hs.append(digest(env)[0])
    return r, hs, names


def all_lines(code):
    names_at(code, 0)
    return list(_lines[code])


def forked(fn, limit=60):
    """the result of fn() in a child process: nothing of what it does is left behind here"""
    return collect(start(fn, limit))


def start(fn, limit):
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    try:
        os.close(r)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(limit)
        try:
            out = ('ok', fn())
        except BaseException as e:      # noqa
            out = ('raises', type(e).__name__, traceback.format_exc(limit=-6))
        with os.fdopen(w, 'wb') as f:
            f.write(pickle.dumps(out))
    finally:
        os._exit(0)


def collect(job):
    pid, r = job
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        return ('died', status)
    return pickle.loads(data)


def forked_many(jobs, limit, n=8):
    """{key: result} of {key: fn}, n at a time"""
    todo, running, out = list(jobs.items()), [], {}
    while todo or running:
        while todo and len(running) < n:
            k, f = todo.pop(0)
            running.append((k, start(f, limit)))
        k, j = running.pop(0)
        out[k] = collect(j)
    return out
