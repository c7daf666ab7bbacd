import copy
import json

from mc import engine
from mc.lib import mem_app, ROOT, same, request_view, plain, outcome, doc as mkdoc
from pyswagger import Security

ASSUMPTIONS = ['fields defined by Swagger 2.0; vendor extensions are dropped by the parser',
               'empty containers nested in free-form values are out of domain (dumped as null, pinned by the test suite)']

EXT = 'http://h.io/other/ext.json'
ELSEWHERE = 'https://mirror.io:81/x/y/z'


def base():
    return {
        'swagger': '2.0', 'info': {'title': 'T', 'version': '1'}, 'host': 'h.io', 'basePath': '/v1', 'schemes': ['http'],
        'paths': {
            '/a/{id}': {'get': {'operationId': 'get', 'tags': ['t'],
                                'parameters': [{'name': 'id', 'in': 'path', 'required': True, 'type': 'string'},
                                               {'name': 'q', 'in': 'query', 'type': 'integer'}],
                                'responses': {'200': {'description': 'ok', 'schema': {'$ref': '#/definitions/M'},
                                                      'headers': {'X-N': {'type': 'integer'}}}}}},
            '/b': {'post': {'operationId': 'post', 'parameters': [{'name': 'b', 'in': 'body', 'schema': {'$ref': '#/definitions/M'}}],
                            'responses': {'200': {'description': ''}, 'default': {'description': 'any'}}},
                   'put': {'operationId': 'put', 'parameters': [{'name': 'f', 'in': 'formData', 'type': 'string'}], 'responses': {'default': {'description': 'x'}}}}},
        'definitions': {'M': {'type': 'object', 'properties': {'s': {'type': 'string'}, 'n': {'type': 'number'}}},
                        'N': {'type': 'object', 'properties': {'d': {'type': 'string', 'format': 'date'}}}},
        'securityDefinitions': {'k': {'type': 'apiKey', 'name': 'key', 'in': 'query'}}}


def at(d, *path):
    for p in path:
        d = d[p]
    return d


GET = ('paths', '/a/{id}', 'get')
POST = ('paths', '/b', 'post')
PUT = ('paths', '/b', 'put')
M = ('definitions', 'M')


def setter(where, **kw):
    def f(d):
        at(d, *where).update(copy.deepcopy(kw))
    f.__name__ = '%s<-%s' % ('/'.join(map(str, where)), json.dumps(kw, sort_keys=True))
    return f


FREE = [None, 0, False, '', 1.5, 'txt', [0, 2.5, False], {'a': 0, 'b': [1], 'c': 'x'}]
NULLS = [[0, None], {'c': None}]
Q = GET + ('parameters', 1)
FEATURES = [
    setter(('info',), description='d', termsOfService='tos', contact={'name': 'n', 'url': 'u', 'email': 'e'}, license={'name': 'L', 'url': 'u'}),
    setter((), consumes=['application/json', 'x/y'], produces=['application/json', 'z/w']),
    setter((), tags=[{'name': 't', 'description': 'd', 'externalDocs': {'description': 'dd', 'url': 'u'}}], externalDocs={'url': 'w'}),
    setter((), schemes=['https', 'http']), setter((), basePath='/'), setter((), basePath='/v1/'), setter((), host='other.io:81'),
    setter((), security=[{'k': ['s']}]),
    setter((), securityDefinitions={'k': {'type': 'apiKey', 'name': 'X-K', 'in': 'header', 'description': 'd'}, 'b': {'type': 'basic'},
                                    'o': {'type': 'oauth2', 'flow': 'accessCode', 'authorizationUrl': 'a', 'tokenUrl': 't', 'scopes': {'s': 'S'}}}),
    setter(GET, summary='s', description='d', externalDocs={'url': 'u'}), setter(GET, deprecated=True), setter(GET, security=[{'k': ['s']}]), setter(GET, security=[{'k': []}]), setter(POST, security=[{}, {'k': [], 'o': ['s']}]), setter((), security=[{'k': []}]),
    setter(GET, security=[]), setter(GET, consumes=['a/b'], produces=['application/json', 'c/d'], schemes=['https']), setter(GET, tags=['t', 'u']),
    setter(('paths', '/a/{id}'), parameters=[{'name': 'p', 'in': 'header', 'type': 'string', 'default': ''}]),
    setter(('paths', '/a/{id}'), delete={'operationId': 'del', 'responses': {'204': {'description': 'gone'}}},
           head={'operationId': 'hd', 'responses': {'204': {'description': 'gone'}}}, options={'operationId': 'opt', 'responses': {'204': {'description': ''}}},
           patch={'operationId': 'pat', 'responses': {'204': {'description': ''}}}),
    setter(Q, default=0), setter(Q, required=True, description='d'), setter(Q, minimum=0, exclusiveMinimum=True), setter(Q, maximum=0, exclusiveMaximum=False), setter(Q, multipleOf=2),
    setter(Q, format='int64'), setter(Q, allowEmptyValue=True),
    setter(Q, type='array', items={'type': 'integer', 'minimum': 0}, collectionFormat='multi', minItems=0, maxItems=2, uniqueItems=True),
    setter(Q, type='array', items={'type': 'array', 'collectionFormat': 'pipes', 'items': {'type': 'string', 'default': 'z'}}, default=[['a', 'b'], ['c']]),
    setter(Q, type='string', enum=['', 'a'], default=''), setter(Q, type='string', minLength=0, maxLength=3, pattern='^a'),
    setter(Q, type='boolean', default=False), setter(Q, type='number', default=0.0, format='double'),
    setter(GET + ('responses', '200'), examples={'application/json': {'s': 'x', 'l': [0, 1.5, False]}}),
    setter(GET + ('responses', '200', 'headers', 'X-N'), description='d', default=0, minimum=-1, type='array', items={'type': 'integer'}, collectionFormat='ssv'),
    setter(GET + ('responses',), **{'404': {'description': 'nf', 'schema': {'type': 'array', 'items': {'$ref': '#/definitions/N'}}}, 'default': {'$ref': '#/responses/R'}}),
    setter(PUT, parameters=[{'name': 'f', 'in': 'formData', 'type': 'file', 'description': 'file'}, {'name': 'g', 'in': 'formData', 'type': 'array', 'items': {'type': 'string', 'format': 'uuid'}}], consumes=['multipart/form-data']),
    setter(PUT, parameters=[{'$ref': '#/parameters/P'}]),
    setter(POST, parameters=[{'name': 'b', 'in': 'body', 'required': True, 'description': 'd', 'schema': {'type': 'array', 'items': {'$ref': '#/definitions/M'}, 'minItems': 0, 'maxItems': 1}}]),
    setter(M, title='t', description='d', required=['s'], externalDocs={'url': 'u'}, xml={'name': 'n', 'namespace': 'ns', 'prefix': 'p', 'attribute': False, 'wrapped': True}),
    setter(M, additionalProperties=False), setter(M, additionalProperties={'type': 'integer', 'format': 'int32', 'maximum': 3}), setter(M, additionalProperties={'$ref': '#/definitions/N'}),
    setter(M, minProperties=0, maxProperties=3), setter(M, discriminator='s'),
    setter(M, allOf=[{'$ref': '#/definitions/N'}, {'properties': {'z': {'type': 'integer', 'default': 0}}, 'required': ['z']}]),
    setter(M + ('properties', 's'), readOnly=True), setter(M + ('properties', 's'), readOnly=False, default=''), setter(M + ('properties', 's'), enum=['', 'b']),
    setter(M + ('properties', 's'), format='byte'), setter(M + ('properties', 's'), title='S', description='', example='', xml={'attribute': True}),
    setter(M + ('properties', 'n'), minimum=0, maximum=0.5, multipleOf=0.1), setter(M + ('properties', 'n'), exclusiveMinimum=False, exclusiveMaximum=True, maximum=9, minimum=1),
    setter(M + ('properties',), a={'type': 'array', 'items': {'type': 'array', 'items': {'type': 'integer'}}, 'uniqueItems': False}, o={'type': 'object', 'properties': {'x': {'type': 'boolean', 'default': False}}}),
    setter(M + ('properties',), e={}, self={'$ref': '#/definitions/M'}),
    setter(M + ('properties',), r={'$ref': EXT + '#/definitions/X'}), setter(M + ('properties',), r={'$ref': '../other/ext.json#/definitions/X'}),
    setter(('definitions',), **{'a/b~c': {'type': 'string'}, 'Chain': {'$ref': '#/definitions/a~1b~0c'}}),
    setter(('definitions', 'N', 'properties', 'd'), default='2000-01-02', format='date-time'),
    setter((), parameters={'P': {'name': 'p', 'in': 'query', 'type': 'string'}, 'Q': {'name': 'b', 'in': 'body', 'schema': {'$ref': '#/definitions/N'}}},
           responses={'R': {'description': 'r', 'headers': {'h': {'type': 'string'}}, 'schema': {'$ref': '#/definitions/N'}}}),
]
NPAIR = len(FEATURES)
FEATURES += [setter(M, example=v) for v in FREE] + [setter(M + ('properties', 'n'), enum=[0, v]) for v in FREE if v is not None and not isinstance(v, dict)] \
  + [setter(GET + ('responses', '200'), examples={'text/plain': v}) for v in FREE if v is not None]
WITH_NULL = [setter(M, example=v) for v in NULLS] + [setter(M + ('properties', 's'), enum=NULLS[0])] + [setter(GET + ('responses', '200'), examples={'text/plain': v}) for v in NULLS + [None]]
FEATURES += WITH_NULL

DEFAULTS = {'deprecated': False, 'collectionFormat': 'csv', 'additionalProperties': True, 'allowEmptyValue': False}


def covers(c, src, dst, where, free=False):
    if isinstance(src, dict):
        c.check(isinstance(dst, dict), 'at %s: %r was dumped as %r' % (where, src, dst), 'lost %s' % where)
        for k, v in src.items():
            if not free and (v is None or v == {} or v == [] and k != 'security'):
                continue
            if not free and k in DEFAULTS and same(DEFAULTS[k], v):
                continue
            if k == 'security' and v == [] and k not in dst and '/paths/' in where:
                c.finding('empty security', 'dump lost the empty security list at %s' % where)
                continue
            if k not in dst:
                c.check(v == {} or v == [], 'dump lost %s/%s = %r' % (where, k, v), 'lost')
                continue
            if k == '$ref' and not free and isinstance(v, str):
                w = v.replace(ROOT, '').replace('../other', 'http://h.io/other')
                c.eq(dst[k], w, '%s/$ref' % where)
                continue
            if k == 'security' and not v:
                c.eq(dst[k], v, 'empty security')
                continue
            covers(c, v, dst[k], where + '/' + k, free or k in ('example', 'examples', 'enum') or k == 'default' and not where.endswith('/responses'))
    elif isinstance(src, list):
        c.check(isinstance(dst, list) and len(dst) >= len(src), 'at %s: %r was dumped as %r' % (where, src, dst), 'list')
        for i, v in enumerate(src):
            covers(c, v, dst[i], '%s/%d' % (where, i), free)
        c.check(len(dst) == len(src) or where.endswith('/parameters'), 'at %s: %d elements were dumped as %d' % (where, len(src), len(dst)), 'extra elements')
    else:
        c.check(same(src, dst), 'at %s: %r was dumped as %r' % (where, src, dst), 'changed')


U = '12345678-1234-5678-1234-567812345678'
CALLS = [('get', dict(id='a/b')), ('get', dict(id='x', q=4)), ('get', dict(id='x', q=0)), ('get', dict(id='x', q=[1, 2])), ('get', dict(id='x', q='a', p='h')), ('get', dict(id='1', q=[['1', '2'], ['3']])), ('get', {}),
         ('post', dict(b={'s': 'x', 'n': 0})), ('post', dict(b={'n': 0.5, 'd': '2000-01-02', 'z': 1, 's': ''})), ('post', dict(b=[{'s': 'b', 'n': 9, 'u': 1}])), ('post', {}), ('post', dict(b={'s': 'b', 'n': 1, 'u': 5, 'r': 5, 'o': {}, 'a': [[0]]})),
         ('put', dict(f='x')), ('put', dict(g=[U])), ('put', dict(p='')), ('del', {}), ('pat', {}), ('hd', {}), ('opt', {})]
ANSWERS = [(200, '{"s": "YQ==", "n": 1, "d": "2001-02-03", "zz": 3, "r": 7}', {'X-N': '5', 'h': 'x'}), (200, '{}', {}), (404, '[{"d": "2001-02-03"}]', {'X-N': '1 2'}), (500, '{"d": "2001-02-03"}', {'h': ''})]


def behaviour(app):
    out = {'ops': sorted(app.op), 'models': sorted(app.m) if hasattr(app, 'm') else None}
    for i, (o, kw) in enumerate(CALLS):
        def call():
            req, _ = app.op[o](**copy.deepcopy(kw))
            sec = Security(app)
            for n in ('k', 'o'):
                if n in (app.root.securityDefinitions or {}):
                    sec.update_with(n, 'SECRET')
            sec(req)
            v = request_view(req)
            v['schemes'] = list(app.op[o].schemes or [])
            return v
        out['call%d' % i] = outcome(call)
    for i, (st, raw, hdr) in enumerate(ANSWERS):
        def resp():
            req, r = app.op['get'](id='x', q=2)
            r.apply_with(status=st, raw=raw, header=hdr)
            return [r.status, plain(r.data), sorted((k, str(plain(v))) for k, v in r.header.items())]
        out['answer%d' % i] = outcome(resp)
    return out


def mend(c, d):
    """d with the lists of scopes and requirements which were dumped as null"""
    d = copy.deepcopy(d)
    for o in [d] + [o for p in (d.get('paths') or {}).values() if isinstance(p, dict) for o in p.values() if isinstance(o, dict)]:
        for i, s in enumerate(o.get('security') or []):
            if s is None or None in s.values():
                c.finding('empty scopes', 'a security requirement was dumped as %r' % (s,))
                o['security'][i] = {k: [] if v is None else v for k, v in (s or {}).items()}
    return d


def roundtrip(c):
    d = base()
    fs = []
    last = 0
    for i in range(3):
        pool = FEATURES[last:] if i == 0 or engine.TIER == 'thorough' else FEATURES[last:NPAIR]
        j = c.pick('feature%d' % i, [None] + pool)
        if j is None:
            break
        last = FEATURES.index(j) + 1
        fs.append(j)
    for f in fs:
        try:
            f(d)
        except KeyError:
            pass
    if "#/responses/R" in json.dumps(d) and 'responses' not in d:
        FEATURES_COMMON(d)
    if "#/parameters/P" in json.dumps(d) and 'parameters' not in d:
        FEATURES_COMMON(d)
    src = copy.deepcopy(d)
    ext = {'definitions': {'X': {'type': 'integer', 'maximum': 7}}}
    docs = {ROOT: d, EXT: ext}
    app = mem_app(docs, strict=False)
    try:
        dump = app.dump()
    except ValueError as e:
        if 'NoneType' in str(e) and any(f in WITH_NULL for f in fs):
            c.finding('null', 'dump refused a document with null inside of a free-form value: %s' % e)
            return
        raise
    b1 = behaviour(app)
    c.step(2)
    c.eq(d, src, 'the source document was modified')
    c.check(same(app.dump(), dump), 'dumping twice gives different documents', 'unstable')
    dump = mend(c, dump)
    text = json.dumps(dump)
    covers(c, src, dump, '')
    c.state(text)
    if 'empty security' in c.findings and src.get('security'):
        return
    for place in (ROOT, ELSEWHERE):
        # host and schemes are part of these documents, nothing depends on where the dump is placed
        app2 = mem_app({place: json.loads(text), EXT: ext}, strict=False, root=place)
        b2 = behaviour(app2)
        for k in b1:
            c.eq(b2[k], b1[k], 'behaviour of the dump reloaded at %s: %s' % (place, k), 'behaviour')
        d2 = mend(c, app2.dump())
        c.check(same(d2, json.loads(text)), 'dump of the dump reloaded at %s differs: %s' % (place, diff(d2, json.loads(text))), 'not stable')
    # the dump is independent of the App
    scribble(dump)
    c.check(same(mend(c, app.dump()), json.loads(text)), 'writing to the dump changed the App', 'aliased dump')
    # strict mode agrees on the original and on the dump
    if '"self"' not in text:
        return
    s1, s2 = outcome(mem_app, {ROOT: src, EXT: ext}), outcome(mem_app, {ROOT: json.loads(text), EXT: ext})
    c.eq((s2[0], s2[0] == 'err' and s2[1]), (s1[0], s1[0] == 'err' and s1[1]), 'strict preparation of the dump')


def FEATURES_COMMON(d):
    d.setdefault('parameters', {'P': {'name': 'p', 'in': 'query', 'type': 'string'}})
    d.setdefault('responses', {'R': {'description': 'r', 'schema': {'$ref': '#/definitions/N'}}})


def scribble(o):
    if isinstance(o, dict):
        for k in list(o):
            scribble(o[k])
        o['zzz'] = 1
    elif isinstance(o, list):
        for x in o:
            scribble(x)
        o.append('zzz')


def diff(a, b, w=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in set(a) | set(b):
            if k not in a or k not in b:
                return '%s/%s only in one' % (w, k)
            if not same(a[k], b[k]):
                return diff(a[k], b[k], w + '/' + k)
    return '%s: %r %r' % (w, a, b)


SCENARIOS = [dict(name='roundtrip', fn=roundtrip, bound=dict(quick=2, thorough=3),
                  space='a base document plus every pair (thorough: triple) of %d features (each field of each 2.0 object, free-form values of every JSON type); source vs dump, behaviour of the reloaded dump, stability' % len(FEATURES))]
