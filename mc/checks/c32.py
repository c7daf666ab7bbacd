"""C32: preparing again, preparing after it failed, and several Apps of one resolver"""
import copy
import json

from mc import engine
from mc.lib import getter_for, doc, op as mkop, P, same, plain
from mc.checks import c22
from pyswagger import App
from pyswagger.resolve import Resolver

ASSUMPTIONS = ['preparing is not done by several threads at once (C23)', 'documents do not change between fetches']
ROOT = 'http://h.io/api/swagger.json'
EXT = 'http://x.io/other.json'
MID = 'http://x.io/mid.json'
OKR = {'200': {'description': '', 'schema': {'$ref': '#/definitions/N'}}, 'default': {'description': '', 'schema': {'type': 'array', 'items': {'type': 'integer'}}}}


def kinds():
    """name -> documents"""
    out = {}
    n = {'type': 'object', 'required': ['i'], 'properties': {'i': {'type': 'integer', 'default': 1}, 'e': {'$ref': EXT + '#/definitions/E'}}}
    e = {'type': 'object', 'properties': {'v': {'type': 'string', 'format': 'date'}}}

    def root(**kw):
        defs = {'N': copy.deepcopy(n), 'S': {'allOf': [{'$ref': '#/definitions/N'}, {'type': 'object', 'properties': {'s': {'type': 'string'}}}]}}
        defs.update(kw.pop('definitions', {}))
        paths = {'/a/{x}': {'parameters': [P('x', 'path'), P('q', default='dq'), {'$ref': EXT + '#/parameters/Z'}],
                            'get': mkop([P('h', 'header')], OKR, operationId='get', tags=['t']),
                            'post': mkop([P('b', 'body', schema={'$ref': '#/definitions/S'})], OKR, operationId='post', security=[{'k': []}])},
                 '/r': {'$ref': EXT + '#/paths/~1o'}}
        paths.update(kw.pop('paths', {}))
        return doc(definitions=defs, paths=paths, consumes=['application/json'], produces=['application/json'], security=[{'b': []}],
                   securityDefinitions={'k': {'type': 'apiKey', 'name': 'key', 'in': 'query'}, 'b': {'type': 'basic'}}, **kw)
    ext = {'definitions': {'E': e, 'M': {'$ref': MID + '#/definitions/M'}}, 'parameters': {'Z': P('z', default='dz')},
           'paths': {'/o': {'get': mkop([P('o', 'query', 'array', items={'type': 'integer'}, default=[3])], {'200': {'description': '', 'schema': {'$ref': '#/definitions/M'}}}, operationId='other')}}}
    mid = {'definitions': {'M': {'type': 'object', 'properties': {'m': {'type': 'integer', 'maximum': 9}}}}}
    base = {EXT: ext, MID: mid}
    out['plain'] = dict(base, **{ROOT: root()})
    out['cyclic'] = dict(base, **{ROOT: root(definitions={'A': {'type': 'object', 'properties': {'b': {'$ref': '#/definitions/B'}}}, 'B': {'type': 'array', 'items': {'$ref': '#/definitions/A'}}})})
    out['invalid'] = dict(base, **{ROOT: root(definitions={'R': {'type': 'object', 'required': ['r'], 'properties': {'r': {'type': 'string', 'readOnly': True}}}})})
    out['missing'] = dict(base, **{ROOT: root(definitions={'X': {'$ref': '#/definitions/Nowhere'}})})
    out['wrong kind'] = dict(base, **{ROOT: root(paths={'/w': {'get': mkop([{'$ref': '#/definitions/N'}], OKR, operationId='w')}})})
    out['twice'] = dict(base, **{ROOT: root(paths={'/w': {'get': mkop(None, OKR, operationId='get', tags=['t'])}})})

    def v12(**kw):
        pet = dict(swaggerVersion='1.2', basePath='http://h.io/v1', resourcePath='/pet', apis=[{'path': '/a/{x}', 'operations': [
            dict(method='GET', nickname='get', type='N', parameters=[dict(paramType='path', name='x', type='string', required=True), dict(paramType='query', name='q', type='integer', minimum='1', maximum='5')], authorizations={'b': []}),
            dict(method='POST', nickname='post', type='void', parameters=[dict(paramType='body', name='body', type='S')])]}],
            models={'N': dict(id='N', properties={'i': {'type': 'integer'}}, subTypes=['S'], discriminator='d'), 'S': dict(id='S', properties={'s': {'type': 'string'}, 'd': {'type': 'string'}})})
        pet.update(kw)
        return {ROOT: dict(swaggerVersion='1.2', apiVersion='1', info=dict(title='t', description='d'), apis=[{'path': '/pet'}], authorizations={'b': {'type': 'basicAuth'}}), 'http://h.io/api/pet': pet}
    out['1.2'] = v12()
    bad = v12()
    bad['http://h.io/api/pet']['apis'][0]['operations'][0]['parameters'][1].update(minimum=None, type='integer', defaultValue=None, paramType=None)
    out['1.2 invalid'] = bad
    return out


KINDS = kinds()
CALLS = [('get', dict(x='1')), ('get', dict(x='a/b', q='2', h='5', z='zz')), ('get', dict(x='1', q=2)), ('get', {}), ('get', dict(x='1', q=9)), ('post', dict(x='1', b={'i': 2, 's': 'a', 'e': {'v': '2001-02-03'}})), ('post', dict(b={'i': 1, 's': 's', 'd': 'S'})),
         ('post', dict(x='1', b={'s': 'a'})), ('other', {}), ('other', dict(o=[1, 2]))]


def behaviour(app):
    out = [sorted(str(k) for k in app.op.keys()), sorted(str(k) for k in app.m.keys()), list(app.schemes), app.version, app.url]
    for oid, kw in CALLS:
        try:
            kw = kw if app.version != '1.2' else dict(('body' if k == 'b' else k, v) for k, v in kw.items())
            req, resp = app.op[oid](**copy.deepcopy(kw))
            req.prepare(scheme='http')
            out.append(c22.view(req))
            out.append([list(req.schemes), json.dumps(list(req._security or []), sort_keys=True), app.op[oid].path, app.op[oid].method])
            resp.apply_with(status=200, raw=b'{"i": 4, "m": 3, "e": {"v": "2001-02-03"}, "d": "S", "s": "q"}')
            out.append(plain(resp.data))
            resp = app.op[oid](**copy.deepcopy(kw))[1]
            resp.apply_with(status=404, raw=b'[1]')
            out.append(plain(resp.data))
        except Exception as e:      # noqa
            out.append(type(e).__name__)
    out.append(app.dump())
    out.append(sorted(map(str, app.validate(strict=False))))
    for ref in [r for r in ('#/definitions/S', '#/paths/~1a~1{x}/get', app.url + '#/definitions/N', EXT + '#/definitions/M', EXT + '#/paths/~1o/get', '#/nowhere') if app.version != '1.2' or EXT not in r]:
        try:
            o = app.resolve(ref)
            out.append([type(o).__name__, sorted(o.dump())])
        except Exception as e:      # noqa
            out.append(type(e).__name__)
    return json.loads(json.dumps(out, default=str, sort_keys=True))


class Net(object):
    """what is reachable; what was fetched"""
    def __init__(self, docs):
        self.docs = docs
        self.down = ()
        self.log = []       # attempts
        self.got = set()

    def getter(self):
        def faults(path):
            if path in self.down:
                raise IOError('down ' + path)
            self.got.add(path)
        return getter_for(self.docs, self.log, faults)


def attempt(f):
    try:
        f()
        return 'ok'
    except Exception as e:      # noqa
        return type(e).__name__


_single = {}


def single(kind, strict, down):
    """a fresh App, prepared once -> (outcome, behaviour)"""
    k = (kind, strict, down)
    if k not in _single:
        net = Net(copy.deepcopy(KINDS[kind]))
        app = App.load(ROOT, resolver=Resolver(default_getter=net.getter()))
        net.down = down
        r = attempt(lambda: app.prepare(strict=strict))
        _single[k] = (r, behaviour(app) if r == 'ok' else None)
    return _single[k]


FAULTS = [(), (EXT,), (MID,), (EXT, MID)]


def prepares(c):
    """histories of prepare and validate on one App; each is like the first of a fresh one"""
    kind = c.free('documents', sorted(KINDS))
    docs = copy.deepcopy(KINDS[kind])
    net = Net(docs)
    app = App.load(ROOT, resolver=Resolver(default_getter=net.getter()))
    errs0 = attempt(lambda: app.validate()), sorted(map(str, app.validate(strict=False)))
    prepared = False
    steps = ['strict', 'lenient', 'validate']
    for i in range(4 if engine.TIER == 'thorough' else 3):
        s = c.free('step %d' % i, [None] + steps)
        if s is None:
            break
        if s == 'validate':
            c.eq((attempt(lambda: app.validate()), sorted(map(str, app.validate(strict=False)))), errs0, 'validation, step %d' % i, 'validate')
            continue
        net.down = c.pick('unreachable in step %d' % i, FAULTS) if '1.2' not in kind else ()
        down = tuple(d for d in net.down if d not in net.got)
        want = single(kind, s == 'strict', down)
        got = attempt(lambda: app.prepare(strict=s == 'strict'))
        # which of several errors is met first is not promised
        c.eq(got == 'ok', want[0] == 'ok', 'prepare %s, step %d: %s, a fresh App: %s' % (s, i, got, want[0]), 'outcome')
        if not net.down:
            c.eq(got, want[0], 'prepare %s, step %d' % (s, i), 'outcome')
        net.down = ()
        prepared = prepared or got == 'ok'
        if prepared:
            # one that is refused leaves the App usable
            good = want if got == 'ok' else single(kind, False, ())
            c22.diff(c, behaviour(app), good[1], 'behaviour after step %d (%s)' % (i, got))
        c.step()
    c.check(same(docs, KINDS[kind]), 'documents changed', 'documents')
    c.state((kind, prepared, len(net.log)))


def apps(c):
    """two or three Apps of one Resolver (or of resolvers of their own), loaded and prepared in any order, with failures; each behaves as if it was alone"""
    pairs = [('plain', 'plain'), ('plain', 'cyclic'), ('cyclic', 'plain'), ('plain', 'invalid'), ('twice', 'plain'), ('wrong kind', 'plain'), ('missing', 'plain'), ('1.2', '1.2'), ('1.2', 'plain'), ('1.2 invalid', '1.2')]
    combo = c.free('documents', pairs)
    share = c.pick('resolver', ['shared', 'own', 'objects'])
    docs = {}
    urls = []
    for i, k in enumerate(combo):
        d = copy.deepcopy(KINDS[k])
        u = ROOT
        if i and combo[0] != k:
            # another root, same external documents
            u = 'http://h%d.io/api/swagger.json' % i
            d = dict((url.replace('http://h.io', 'http://h%d.io' % i) if url.startswith('http://h.io') else url, v) for url, v in d.items())
        urls.append(u)
        docs.update(d)
    before = copy.deepcopy(docs)
    net = Net(docs)
    if share == 'objects':
        from pyswagger.getter import SimpleGetter

        class G(SimpleGetter):
            def load(self, path):
                if path in net.down:
                    raise IOError('down')
                net.log.append(path)
                return docs[path]
        getter = G
    else:
        getter = net.getter()
    one = Resolver(default_getter=getter)
    apps_ = [None, None]
    todo = [['load', 'prepare', 'use', 'prepare'], ['load', 'prepare', 'use']]
    ok = [False, False]
    mine = [True, True]
    while todo[0] or todo[1]:
        i = c.free('next', [j for j in (0, 1) if todo[j]])
        what = todo[i].pop(0)
        if what == 'load':
            apps_[i] = App.load(urls[i], resolver=one if share == 'shared' else Resolver(default_getter=getter))
        elif what == 'prepare':
            net.down = c.pick('unreachable', FAULTS[:2])
            r = attempt(lambda: apps_[i].prepare(strict=False))
            if not net.down:
                c.eq(r, single(combo[i], False, ())[0], 'prepare', 'outcome')
            net.down = ()
            if r != 'ok' and single(combo[i], False, ())[0] == 'ok':
                r = attempt(lambda: apps_[i].prepare(strict=False))
                c.eq(r, 'ok', 'prepare after a failed fetch', 'retry')
            ok[i] = r == 'ok'
        elif ok[i]:
            mine[i] = use(c, apps_[i])
        c.step()
    for i in (0, 1):
        if ok[i] and mine[i]:
            got = json.loads(json.dumps(behaviour(apps_[i])).replace('h%d.io' % i, 'h.io') if i else json.dumps(behaviour(apps_[i])))
            c22.diff(c, got, single(combo[i], False, ())[1], 'behaviour of App %d' % i)
    c.check(same(docs, before), 'documents changed', 'documents')
    c.state((combo, share, ok))


def use(c, app):
    """what may be done to one App, which is nobody else's business; -> still as it was"""
    for o in app.op.values():
        o.parameters
    scribble(app.dump())
    if c.pick('handlers', [False, True]):
        def boom(*a, **k):
            raise RuntimeError('handler of another App')
        app.prim_factory.register('integer', None, boom)
        app.prim_factory.register('string', None, boom)
        app.mime_codec.unregister('application/json')
        return False
    return True


def scribble(d):
    if isinstance(d, dict):
        for k in list(d):
            scribble(d[k])
        d['scribble'] = 1
    elif isinstance(d, list):
        for x in d:
            scribble(x)
        d.append('scribble')


SCENARIOS = [
    dict(name='prepares', fn=prepares, bound=dict(quick=1, thorough=2), space='8 kinds of documents (good, cyclic, invalid, unresolvable, mistyped, duplicate, 1.2) x all histories of 3 (4) of prepare strict/lenient and validate, with up to `bound` steps during which documents cannot be fetched'),
    dict(name='apps', fn=apps, bound=dict(quick=1, thorough=2), space='10 pairs of APIs on a shared Resolver (or own, or documents as objects): all interleavings of load, prepare, use, prepare again'),
]
