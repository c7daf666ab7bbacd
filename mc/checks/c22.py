"""C22: nothing that was given, and no prepared App, is modified"""
import copy
import datetime
import io
import json
import random

from mc import engine
from mc.lib import mem_app, doc, op as mkop, P, probe, plain, same, load_app
from pyswagger import App, Security
from pyswagger.getter import SimpleGetter
from pyswagger.primitives import Primitive, MimeCodec, Renderer
from pyswagger.resolve import Resolver

ASSUMPTIONS = ['what the caller does to values he got back from pyswagger counts only at their top level (raw extra properties share nested containers with the argument)', 'file objects are consumed by a send']
J, X = 'application/json', 'application/x-1'


def documents():
    pet = {'type': 'object', 'required': ['n'], 'discriminator': 'kind', 'properties': {'n': {'type': 'string', 'default': 'dn'}, 'kind': {'type': 'string'}, 'tags': {'type': 'array', 'items': {'type': 'string'}, 'default': ['t1', 't2']},
           'ro': {'type': 'integer', 'readOnly': True}, 'in': {'$ref': '#/definitions/In'}}, 'additionalProperties': True}
    inn = {'type': 'object', 'properties': {'d': {'type': 'string', 'format': 'date', 'default': '2001-02-03'}, 'u': {'type': 'array', 'items': {'type': 'integer'}, 'uniqueItems': True}}}
    dog = {'allOf': [{'$ref': '#/definitions/Pet'}, {'type': 'object', 'required': ['w'], 'properties': {'w': {'type': 'integer', 'minimum': 0, 'maximum': 9}}}]}
    okr = {'200': {'description': '', 'schema': {'$ref': '#/definitions/Dog'}, 'headers': {'X-A': {'type': 'array', 'items': {'type': 'integer'}}}}, 'default': {'description': '', 'schema': {'type': 'array', 'items': {'type': 'integer'}, 'default': [7]}}}
    d = doc(definitions={'Pet': pet, 'In': inn, 'Dog': dog}, parameters={'Q': P('q', type_='array', items={'type': 'string'}, default=['a', 'b'])}, consumes=[J], produces=[J, X], schemes=['http', 'https'],
            securityDefinitions={'k': {'type': 'apiKey', 'name': 'key', 'in': 'query'}, 'b': {'type': 'basic'}}, security=[{'k': []}],
            paths={
        '/a/{x}': {'parameters': [{'$ref': '#/parameters/Q'}, P('x', 'path', default='dx'), P('h', 'header', 'array', items={'type': 'integer'}, default=[1, 2], collectionFormat='pipes')],
                   'get': mkop([P('m', type_='array', items={'type': 'string'}, collectionFormat='multi', default=['m1', 'm2'])], okr, operationId='get', tags=['t1', 't2']),
                   'post': mkop([P('body', 'body', schema={'$ref': '#/definitions/Dog'})], okr, operationId='post', security=[{'b': []}]),
                   'put': mkop(None, okr, operationId='put', security=[])},
        '/f': {'post': mkop([P('f', 'formData', default='ff'), P('g', 'formData', 'array', items={'type': 'string'}, collectionFormat='multi'), P('u', 'formData', 'file')], okr, operationId='form', consumes=['multipart/form-data', 'application/x-www-form-urlencoded'])},
        '/ref': {'$ref': 'http://x.io/other.json#/paths/~1other'},
    })
    other = {'paths': {'/other': {'get': mkop([P('z', default='other')], okr_other(), operationId='other'), 'parameters': [P('o', type_='array', items={'type': 'integer'}, default=[3])]}}}
    return {'http://h.io/api/swagger.json': d, 'http://x.io/other.json': other}


def okr_other():
    return {'200': {'description': '', 'schema': {'type': 'array', 'items': {'type': 'integer'}}}}


BODY = {'n': 'x', 'w': 3, 'tags': ['q', 'q'], 'in': {'u': [1, 1, 2]}, 'extra': {'k': [1, {'z': 2}]}}
RAW = b'{"n": "r", "w": 1, "in": {"u": [3, 3]}, "more": [1]}'


def view(req):
    d = req.data
    return [req.method, req.url, [tuple(x) for x in req.query], sorted(req.header.items()), d if isinstance(d, (str, bytes, type(None))) else plain(d), sorted(req.files)]


def behaviour(app, sec=None):
    """what later calls of everything give"""
    out = []
    for oid, kw in (('get', {}), ('get', dict(q=['z'], x='1', h=[5], m=['9'])), ('post', dict(body=copy.deepcopy(BODY))), ('post', dict(body={'w': 0})), ('put', {}), ('form', {}), ('form', dict(g=['1', '2'])), ('other', {}), ('other', dict(o=[5]))):
        req, resp = app.op[oid](**kw)
        req.prepare(scheme='http')
        out.append(view(req))
        out.append([req.schemes, json.dumps(req._security) if isinstance(req._security, list) else str(req._security)])
        if oid != 'other':
            resp.apply_with(status=200, header={'x-a': '1,2'}, raw=RAW)
            out.append([plain(resp.data), plain(list(resp.header.values()))])
            resp = app.op[oid](**kw)[1]
            resp.apply_with(status=404, raw=b'[1, 2]')
        else:
            resp.apply_with(status=200, raw=b'[4]')
        out.append(plain(resp.data))
    for bad in (dict(nope=1), dict(body={'w': 10}), dict(body={'w': 1, 'ro': 1})):
        try:
            app.op['post'](**bad)
            out.append('ok')
        except Exception as e:  # noqa
            out.append(type(e).__name__)
    out.append(app.dump())
    out.append([app.schemes, app.version, app.url, sorted(str(k) for k in app.op.keys()), sorted(str(k) for k in app.m.keys())])
    out.append(sorted(app.resolve('#/definitions/Dog').allOf[1].properties))
    return json.loads(json.dumps(out, default=str, sort_keys=True))


class Boom(Exception):
    pass


def load(docs, **kw):
    app = load_app(docs, **kw)
    app.prepare()
    return app


def given(c, what, value, f):
    """runs f(value) and checks that value stays what it was"""
    before = copy.deepcopy(value)
    try:
        r = f(value)
    except Boom:
        r = None
    c.check(type(value) == type(before) and same(value, before) and repr(value) == repr(before), '%s: argument changed from %r to %r' % (what, before, value), 'argument')
    return r


def actions():
    A = {}

    def act(f):
        A[f.__name__] = f
        return f

    @act
    def call_defaults(c, s):
        for o in ('get', 'put', 'form', 'other'):
            req, _ = s.app.op[o]()
            req.prepare(scheme='http')

    @act
    def edit_request(c, s):
        # documented way to send invalid input: patch what was prepared
        req, _ = s.app.op['get']()
        req.query.append(('z', '1'))
        del req.query[0]
        req._p['header']['h'] = 'patched'
        req._p['path']['x'] = 'patched'
        req.prepare(scheme='http')
        req.header['New'] = '1'
        req, _ = s.app.op['post'](body={'w': 1})
        req._p['body']['body']['w'] = 'invalid'
        req._p['body']['body']['tags'].append('patched')
        req._p['body']['body']['n'] = 5
        req.prepare(scheme='http')

    @act
    def call_args(c, s):
        kw = dict(q=['1', '2'], x='v', h=[3, 4], m=['a', 'a', ''])
        given(c, 'lists', kw, lambda v: s.app.op['get'](**v)[0].prepare(scheme='http'))
        given(c, 'tuple', dict(q=('1', '2')), lambda v: s.app.op['get'](**v)[0].prepare(scheme='http'))

    @act
    def call_body(c, s):
        given(c, 'body', copy.deepcopy(BODY), lambda v: s.app.op['post'](body=v)[0].prepare(scheme='http'))
        given(c, 'body with date', {'w': 1, 'in': {'d': datetime.date(2002, 3, 4)}}, lambda v: s.app.op['post'](body=v)[0].prepare(scheme='http'))

    @act
    def call_model(c, s):
        # a model and an array got from a response, passed on as arguments
        _, resp = s.app.op['post'](body={'w': 1})
        resp.apply_with(status=200, raw=b'{"n": "r", "w": 1, "more": [1]}', header={'X-A': '5,6'})
        m, a = resp.data, resp.header['X-A'][0]
        before = plain(m), plain(a), str(a)
        req, _ = s.app.op['post'](body=m)
        req.prepare(scheme='http')
        req, _ = s.app.op['get'](q=a, h=a)
        req.prepare(scheme='http')
        c.eq((plain(m), plain(a), str(a)), before, 'data of the response')
        m['w'] = 99
        m['tags'].append('x')
        a.append(5)

    @act
    def failing_calls(c, s):
        for kw in (dict(body={'n': 'x'}), dict(body=dict(copy.deepcopy(BODY), w=100)), dict(body={'w': 1, 'ro': 5}), dict(nope=[1]), dict(body={'w': 'x'}), dict(body={'w': 1, 'tags': 5})):
            def f(v):
                try:
                    s.app.op['post'](**v)
                except Exception:   # noqa
                    raise Boom()
                raise engine.Violation('accepted %r' % (v,), 'accepted')
            given(c, 'refused argument', kw, f)

    @act
    def file_args(c, s):
        f1 = io.BytesIO(b'DATA')
        desc = dict(filename='a.b', header={'Content-Type': 'x/y'}, data=f1)
        kw = dict(u=desc, g=['1'], f='z')
        keep = dict(desc, header=dict(desc['header']))
        s.app.op['form'](**kw)[0].prepare(scheme='http')
        c.eq([desc, kw['g'], kw['f']], [keep, ['1'], 'z'], 'file description')
        c.check(kw['u'] is desc, 'file description replaced')
        for d in (dict(filename='a', data=io.BytesIO(b'x')), dict(data=io.BytesIO(b'x')), dict(header={}, data=io.BytesIO(b'x')), dict(data=b'raw', filename=''),
                  dict(data='text', header=None), dict(filename='', data=None)):
            keep, held = dict(d, header=dict(d['header'])) if d.get('header') else dict(d), d.get('header')
            for p in (1, 2):
                try:
                    s.app.op['form'](u=d)[0].prepare(scheme='http')
                except Exception:       # noqa
                    pass
                c.eq(d, keep, 'file description')
                c.check(d.get('header') is held, 'headers of a file description replaced')

    @act
    def send(c, s):
        sec = Security(s.app)
        given(c, 'credentials', ('u', 'p'), lambda v: sec.update_with('b', v))
        sec.update_with('k', 'KEY')
        for o in ('get', 'post', 'put', 'form', 'other'):
            for opt in ({'url_netloc': 'n:1', 'join_headers': True}, {'url_scheme': 'https'}):
                for hs in ([('X', '1'), ('X', '2')], {'h': 'z'}):
                    def f(v):
                        cl = probe(security=sec)
                        cl.request(s.app.op[o](**(dict(body={'w': 1}) if o == 'post' else {})), v[0], v[1])
                    given(c, 'options and headers', [opt, hs], f)
        lst = ['https', 'http']
        given(c, 'schemes', lst, lambda v: s.app.op['get']()[0].prepare(scheme=v))

    @act
    def choose_media(c, s):
        req, _ = s.app.op['get']()
        req.produce(X).consume(J)
        req.scheme = 'https'
        req.prepare(scheme=['http', 'https'])
        req.schemes and probe().prepare_schemes(req)

    @act
    def responses(c, s):
        for st, raw, hs in ((200, RAW, {'X-A': '1,2'}), (404, b'[1, 1]', [('x-a', '3'), ('x-a', '4')]), (200, b'{"w": 1, "n": "q", "tags": []}', None)):
            _, resp = s.app.op['get']()
            given(c, 'headers', hs, lambda v: resp.apply_with(status=st, header=v, raw=raw))
            if resp.data is not None and isinstance(resp.data, dict):
                resp.data['w'] = 77
                resp.data['tags'] = None
            elif resp.data is not None:
                resp.data.append(1)
            for v in resp.header.values():
                v.append('x')

    @act
    def failing_responses(c, s):
        for raw in (b'{', b'{"n": "a"}', b'{"w": 10, "n": "s"}', b'[1]'):
            _, resp = s.app.op['get']()
            try:
                resp.apply_with(status=200, raw=raw, header={'X-A': '1'})
            except Exception:   # noqa
                pass
        try:
            s.app.op['get']()[1].apply_with(raw=b'1')
        except Exception:       # noqa
            pass

    @act
    def render(c, s):
        random.seed(3)
        opt = Renderer.default()
        opt['object_template'].update(n='tpl', tags=['tt'])
        opt['parameter_template'].update(q=['qq'])
        opt['max_property'] = True
        opt['max_array_length'] = 3
        opt['max_prop_count'] = 9
        r = Renderer()

        def f(v):
            for o in ('get', 'post', 'put', 'other'):
                r.render_all(s.app.op[o], exclude=['x'], opt=v)
            r.render(s.app.resolve('#/definitions/In'), v)
        given(c, 'render options', opt, f)
        c.eq(sorted(Renderer.default()['object_template']), [], 'default templates')

    @act
    def dump(c, s):
        d = s.app.dump()
        d['paths'].clear()
        d['info']['title'] = 'changed'
        d['schemes'] = []

    @act
    def lookups(c, s):
        for k in ('get', ('t1', 'get'), 'nope', 'T'):
            try:
                s.app.op[k]
            except Exception:   # noqa
                pass
        for p in ('#/definitions/Dog', '#/nope', 'http://x.io/other.json#/paths/~1other', 'http://no.io/x', '#/definitions/Pet/properties/tags/default'):
            try:
                s.app.resolve(p)
            except Exception:   # noqa
                pass
        s.app.s('a/{x}')
        s.app.validate(strict=False)

    @act
    def second_app(c, s):
        # same documents, other App: different strictness, factory, codec
        prim, codec = Primitive(), MimeCodec()
        app2 = load(documents(), prim=prim, mime_codec=codec)
        prim.register('string', None, lambda o, v, ctx: 'MARK')
        prim.register('integer', 'x', lambda o, v, ctx: 'MARK')
        codec.unregister(J)
        try:
            app2.op['get']()[0].prepare(scheme='http')
            app2.op['post'](body={'w': 1})
        except Exception:       # noqa
            pass
        sec = Security(app2)
        sec.update_with('b', ('q', 'q'))

    @act
    def second_changes(c, s):
        # an App of a different document with equal names, sharing nothing but the process
        d = documents()
        d['http://h.io/api/swagger.json']['definitions']['Pet']['properties']['n']['default'] = 'OTHER'
        d['http://h.io/api/swagger.json']['paths']['/a/{x}']['parameters'][1]['default'] = 'OTHER'
        d['http://h.io/api/swagger.json']['host'] = 'other.io'
        d['http://x.io/other.json']['paths']['/other']['get']['parameters'][0]['default'] = 'OTHER'
        app2 = load(d)
        app2.op['other']()[0].prepare(scheme='http')
    return A


ACTIONS = actions()


class State(object):
    pass


def sequences(c):
    """all sequences of actions; the App then still behaves as it did, its documents are what they were"""
    depth = 3 if engine.TIER == 'thorough' else 2
    names = [None] + sorted(ACTIONS)
    s = State()
    docs = documents()
    source = copy.deepcopy(docs)
    form = c.pick('documents', ['text', 'dict', 'shared factory', 'shared resolver'])
    kw = {}
    twin = None
    if form == 'dict':
        s.app = dict_app(docs)
    elif form == 'shared resolver':
        from mc.lib import getter_for
        res = Resolver(default_getter=getter_for(docs))
        twin = App.load('http://h.io/api/swagger.json', resolver=res)
        s.app = App.load('http://h.io/api/swagger.json', resolver=res)
        twin.prepare()
        s.app.prepare()
    elif form == 'shared factory':
        prim, codec = Primitive(), MimeCodec()
        twin = load(docs, prim=prim, mime_codec=codec)
        s.app = load(docs, prim=prim, mime_codec=codec)
    else:
        s.app = load(docs)
    want = _want()
    for i in range(depth):
        a = c.free('action %d' % i, names)
        if a is None:
            break
        ACTIONS[a](c, s)
        c.step()
    for rep in (1, 2):
        got = behaviour(s.app)
        diff(c, got, want, 'behaviour (%d)' % rep)
    if twin is not None:
        diff(c, behaviour(twin), want, 'behaviour of the other App')
    c.check(same(docs, source), 'source documents changed', 'documents')
    c.state(engine.h64(json.dumps(got, sort_keys=True)))


def dict_app(docs):
    """documents given as dicts by a getter"""
    class G(SimpleGetter):
        def load(self, path):
            return docs[path]
    app = App.load('http://h.io/api/swagger.json', resolver=Resolver(default_getter=G))
    app.prepare()
    return app


_cache = {}


def _want():
    import os
    if os.getpid() not in _cache:
        _cache[os.getpid()] = behaviour(load(documents()))
    return _cache[os.getpid()]


def diff(c, got, want, what):
    if same(got, want):
        return
    for g, w in zip(got, want):
        if not same(g, w):
            c.fail('%s: %s, at first %s' % (what, _around(g, w)[0], _around(g, w)[1]), 'behaviour')
    c.fail(what, 'behaviour')


def _around(g, w):
    a, b = json.dumps(g, sort_keys=True), json.dumps(w, sort_keys=True)
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return a[max(0, i - 80):i + 80], b[max(0, i - 80):i + 80]




# ---- one argument of every kind, everywhere

def schemas():
    i = {'type': 'integer', 'format': 'int32'}
    base = {'type': 'object', 'properties': {'a': {'type': 'array', 'items': i, 'uniqueItems': True}, 'o': {'type': 'object', 'properties': {'x': i, 'dflt': {'type': 'string', 'default': 'D'}}, 'additionalProperties': True},
            'p': {'type': 'string', 'format': 'password'}, 'd': {'type': 'string', 'format': 'date'}, 't': {'type': 'string', 'format': 'date-time'}, 'y': {'type': 'string', 'format': 'byte'}, 'u': {'type': 'string', 'format': 'uuid'},
            'l': {'type': 'array', 'items': {'type': 'array', 'items': {'type': 'object', 'properties': {'x': i}}}}}}
    return {
        'object': base,
        'with extras': dict(base, additionalProperties={'type': 'object', 'properties': {'x': i, 'dflt': {'type': 'string', 'default': 'D'}}}),
        'free': {'type': 'object', 'additionalProperties': True},
        'closed': {'type': 'object', 'properties': {'a': base['properties']['a']}, 'additionalProperties': False},
        'all': {'allOf': [base, {'type': 'object', 'properties': {'z': {'type': 'string', 'default': 'D'}}}]},
        'typed all': {'type': 'object', 'allOf': [base], 'properties': {'z': {'type': 'string', 'default': 'D'}}},
        'array': {'type': 'array', 'items': base, 'uniqueItems': False},
        'discriminated': {'$ref': '#/definitions/Base'},
    }


def arguments_of(kind):
    import collections
    u = '6f4e6b3c-2b3a-4c51-9d5e-0123456789ab'
    full = dict(a=[1, 1, 2], o={'x': 1, 'more': [1, {'k': None}]}, p='s', d=datetime.date(2001, 2, 3), t=datetime.datetime(2001, 2, 3, 4, 5, 6), y='YQ==', u=u, l=[[{'x': 1}, {}], []])
    out = [full, {}, dict(a=[]), dict(a=(3, 3)), dict(o={}), collections.OrderedDict([('o', collections.OrderedDict([('x', 2)])), ('a', ['5', '5'])]), dict(l=(({'x': 1},),)), dict(d='2001-02-03', t='2001-02-03T04:05:06Z'),
           dict(q={'x': 1}), dict(a=None), dict(a='no'), dict(o=5), dict(l=[5]), dict(d='x'), dict(full, a=collections.deque([1, 1]))]
    if kind == 'closed':
        out += [dict(a=[1], b=2)]
    if kind == 'array':
        out = [[copy.deepcopy(v)] for v in out] + [[], ({},), [{}, {}]]
    if kind == 'discriminated':
        out = [dict(v, k='Dog') if isinstance(v, dict) else v for v in out] + [dict(k='Base'), dict(k='Nope')]
    return out


def arguments(c):
    """bodies, property arguments, headers of answers: unchanged, whether accepted or refused, and a second call gives the same"""
    kinds = schemas()
    kind = c.free('schema', sorted(kinds))
    n = c.free('argument', list(range(len(arguments_of(kind)))))
    arg = arguments_of(kind)[n]
    where = c.free('as', ['body', 'form dict', 'answer', 'of the same object twice'])
    base = kinds['object']
    sch = kinds[kind]
    d = doc(consumes=[J], produces=[J], definitions={'Base': dict(base, discriminator='k', required=['k'], properties=dict(base['properties'], k={'type': 'string'})),
            'Dog': {'allOf': [{'$ref': '#/definitions/Base'}, {'type': 'object', 'properties': {'z': {'type': 'string', 'default': 'D'}}}]}, 'Two': {'type': 'object', 'properties': {'one': sch, 'two': sch}}},
            paths={'/b': {'post': mkop([P('b', 'body', schema=sch)], {'default': {'description': '', 'schema': sch}}, operationId='o'), 'put': mkop([P('b', 'body', schema={'$ref': '#/definitions/Two'})], operationId='two')}})
    app = mem_app(d)
    before = copy.deepcopy(arg)
    outer = arg

    def run():
        if where == 'body':
            req, _ = app.op['o'](b=arg)
        elif where == 'of the same object twice':
            req, _ = app.op['two'](b={'one': arg, 'two': arg})
        elif where == 'form dict':
            req, _ = app.op['o'](**{'b': arg})
            req.prepare(scheme='http')
            req.prepare(scheme='http', handle_files=False)
        else:
            _, resp = app.op['o'](b=[] if kind == 'array' else {'k': 'Dog'})
            resp.apply_with(status=200, raw=json.dumps(arg, default=str).encode(), header={'Content-Type': J})
            return plain(resp.data)
        req.prepare(scheme='http')
        return plain(req.data)
    res = []
    for i in (1, 2):
        try:
            res.append(['ok', run()])
        except Exception as e:      # noqa
            res.append(['err', type(e).__name__])
        c.check(outer is arg and same(arg, before) and repr(arg) == repr(before), 'argument changed from %r to %r' % (before, arg), 'argument')
    c.eq(res[1], res[0], 'second time')
    c.step()
    c.state(engine.h64(json.dumps([kind, where, res[0]], sort_keys=True, default=str)))


SCENARIOS = [
    dict(name='arguments', fn=arguments, bound=dict(quick=0, thorough=0), space='8 schemas x 15-18 arguments (nested lists, tuples, ordered dicts, deques, dates, refused ones) x 4 ways to use them'),
    dict(name='sequences', fn=sequences, bound=dict(quick=1, thorough=1), space='all sequences of up to 2 (3) of 16 actions on one App, with up to 1 other way to provide documents, factories or resolvers'),
]
