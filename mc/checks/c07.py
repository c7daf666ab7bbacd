import itertools

from pyswagger import errs
from mc import engine
from mc.engine import Skip
from mc.lib import mem_app, doc as mkdoc, op as mkop

ASSUMPTIONS = ['a suffix is a textual suffix of the joined key; among several, one whose last name is the last name of the key wins (pinned by the test suite)',
               'the key of an operation uses the first of its tags']
DEFAULT = '!##!'
TAGS = [None, 't', 'at', 'pet']
IDS = ['get', 'a-get', 'pet', 't']


def reference(keys, key, sep):
    """the specification of a lookup -> ('ok', joined key) or ('err', class)"""
    k = sep.join(x for x in key if x) if isinstance(key, tuple) else key
    if k in keys:
        return ('ok', k)
    cand = [x for x in keys if x.endswith(k)]
    if len(cand) > 1:
        last = k.split(sep)[-1]
        same = [x for x in cand if x.split(sep)[-1] == last]
        if len(same) != 1:
            return ('err', 'ValueError')
        cand = same
    return ('ok', cand[0]) if cand else ('err', 'KeyError')


def look(d, key):
    try:
        return ('ok', d[key])
    except (KeyError, ValueError) as e:
        return ('err', type(e).__name__)


def operations(c):
    sep = c.free('separator', [DEFAULT, '.', '__'] if engine.TIER == 'thorough' else [DEFAULT, '.'])
    n = 3
    ids = IDS + (['a.get', 't.get'] if sep == '.' else [])
    kinds = [(t, i) for t in TAGS for i in ids]
    first = c.free('first', list(range(len(kinds))))
    second = c.free('second', list(range(first, len(kinds))))
    third = c.free('third', [None] + list(range(second, len(kinds))))
    ops = [kinds[first], kinds[second]] + ([kinds[third]] if third is not None else [])
    extra = c.pick('more', ['no', 'second tag', 'no id', 'no tags', 'other methods'])
    paths = {}
    keys = {}
    dup = False
    for n, (t, i) in enumerate(ops):
        m = ['get', 'post', 'delete', 'put'][n]
        o = mkop(operationId=i)
        if t:
            o['tags'] = [t] + (['zz', 'pet'] if extra == 'second tag' else [])
        elif extra == 'no tags':
            o['tags'] = []
        p = '/p' if extra == 'other methods' else '/p%d' % n
        paths.setdefault(p, {})[m] = o
        k = sep.join(x for x in (t, i) if x)
        if k in keys:
            dup = True
        keys[k] = (p, m)
    if extra == 'no id':
        paths['/noid'] = {'get': mkop(tags=['t']), 'post': mkop(tags=['t']), 'put': mkop(), 'head': mkop(tags=['pet'])}
    d = mkdoc(paths=paths)
    c.step()
    try:
        app = mem_app(d, app_kw=None, **(dict(sep=sep) if sep != DEFAULT else {})) if False else mem_app(d, **(dict(sep=sep) if sep != DEFAULT else {}))
    except errs.SchemaError:
        c.check(dup, 'distinct keys %r were rejected as duplicates' % sorted(keys), 'rejected')
        c.state('dup')
        return
    c.check(not dup, 'duplicated keys accepted: %r' % (ops,), 'dup')
    c.eq(sorted(app.op), sorted(keys), 'keys of app.op')
    tries = set()
    names = set(x for o in ops for x in o if x) | {'et', 'g', 'nope', 'a', '-get', 'Get', 'PET', 'get ', 'zz', ''} - {''}
    tries |= names
    tries |= set(itertools.product([None] + sorted(names), sorted(names)))
    tries |= set(sep.join(x) for x in itertools.product(sorted(names), repeat=2))
    tries |= set(DEFAULT.join(x) for x in itertools.product(sorted(x for o in ops for x in o if x), repeat=2))
    for k in keys:
        tries |= set(k[i:] for i in range(len(k)))
    tries |= set(('t', a, b) for a in ('pet', 'at') for b in ('get', 't'))
    outs = set()
    for k in sorted(tries, key=repr):
        want = reference(keys, k, sep)
        got = look(app.op, k)
        if got[0] == 'ok':
            got = ('ok', sep.join(x for x in ((got[1].tags or [None])[0], got[1].operationId) if x))
        c.eq(got, want, 'app.op[%r] with keys %r, separator %r' % (k, sorted(keys), sep), 'lookup')
        outs.add(want)
        if got[0] == 'ok':
            p, m = keys[got[1]]
            o = app.op[k]
            c.eq((o.path, o.method), (p, m), 'operation behind %r' % (k,))
            c.check(o is getattr(app.root.paths[p], m), 'app.op[%r] is not the operation of the document' % (k,))
        c.step()
    for k in ('', ()):
        pass
    c.state(sorted(outs))


def models(c):
    sep = c.free('separator', [DEFAULT, '.'])
    pool = ['Pet', 'BigPet', 'pet', 'a' + sep + 'Pet', 'b' + sep + 'Pet', 'a' + sep + 'BigPet', 'et']
    names = c.subset('definition', pool)
    order = c.pick('order', [list, lambda x: list(reversed(x))])
    app = mem_app(mkdoc(definitions=dict((n, {'type': 'object', 'title': n}) for n in order(names)) if names else None), sep=sep)
    tries = set(pool) | {'Pe', 'ET', 'Petx', 'c' + sep + 'Pet'} | {('a', 'Pet'), ('b', 'Pet'), ('c', 'Pet'), (None, 'Pet'), ('a', 'BigPet'), ('a', 'b', 'Pet')}
    for n in names:
        tries |= set(n[i:] for i in range(len(n)))
    for k in sorted(tries, key=repr):
        got = look(app.m, k)
        if got[0] == 'ok':
            got = ('ok', got[1].title)
        c.eq(got, reference(names, k, sep), 'app.m[%r] with %r' % (k, names), 'model lookup')
        c.step()
    c.eq(sorted(app.m), sorted(names), 'names of app.m')
    c.state(names, sep)


def shortcut(c):
    """App.s: path items by path, with or without the leading slash"""
    pool = ['/a', '/a/b', '/{x}', '/a/{x}', '/b~c', '/', '/a~1b', '/paths', '/A']
    names = c.subset('path', pool)
    app = mem_app(mkdoc(paths=dict((p, {'get': mkop(operationId='op-%d' % i)}) for i, p in enumerate(names))))
    for p in pool:
        for spelled in ([p, p[1:]] if p != '/' else [p]):
            try:
                got = app.s(spelled).get.operationId
            except Exception:       # noqa
                got = None
            c.eq(got, 'op-%d' % names.index(p) if p in names else None, 'app.s(%r) with paths %r' % (spelled, names), 'shortcut')
            c.step()
    c.state(names)


SCENARIOS = [
    dict(name='operations', fn=operations, bound=dict(quick=0, thorough=1), space='all documents with 2 or 3 operations over 4 tags x 4-6 ids, duplicates included, 2-3 separators; ~150 lookup keys each'),
    dict(name='variants', fn=lambda c: operations_small(c), bound=1, space='as before over fewer names, with further tags, operations without id, shared paths'),
    dict(name='models', fn=models, bound=1, space='all subsets of 7 model names x 2 separators x all suffixes'),
    dict(name='shortcut', fn=shortcut, bound=0, space='all subsets of 9 paths, App.s with and without slash'),
]


def operations_small(c):
    global TAGS, IDS
    t, i = TAGS, IDS
    TAGS, IDS = [None, 't', 'at'], ['get', 'a-get']
    try:
        operations(c)
    finally:
        TAGS, IDS = t, i
