"""C33: what is patched into the prepared parameters of a request is what is sent"""
import copy
import io
import json

from six.moves.urllib.parse import parse_qsl
from mc import engine, wire
from mc.lib import mem_app, doc, op as mkop, P, same, plain, request_view
from mc.checks.c11 import decode_multipart

ASSUMPTIONS = ['keys of Request._p are the locations of OpenAPI 2.0 (path, query, header, body, formData) and file; query and formData hold (name, text) pairs, the others are maps from names',
               'values patched into path, query, header and formData are text', 'requests and flask cannot send a header twice']
BODY = {'type': 'object', 'required': ['id'], 'properties': {'id': {'type': 'integer', 'maximum': 5}, 'tags': {'type': 'array', 'items': {'type': 'string'}}, 'd': {'type': 'string', 'format': 'date'},
        'inner': {'type': 'object', 'properties': {'n': {'type': 'number'}}, 'additionalProperties': False}}}


def make(host):
    common = [P('x', 'path'), P('q'), P('r', 'query', 'array', items={'type': 'string'}, collectionFormat='multi'), P('X-H', 'header', maxLength=3), P('dflt', default='dv')]
    paths = {}
    for kind, ps, kw in (
            ('body', [P('b', 'body', schema=BODY)], {}),
            ('list', [P('b', 'body', schema={'type': 'array', 'items': BODY})], {}),
            ('form', [P('f', 'formData', required=True), P('g', 'formData', 'array', items={'type': 'string'}, collectionFormat='multi')], {}),
            ('file', [P('u', 'formData', 'file'), P('f', 'formData')], dict(consumes=['multipart/form-data'])),
            ('none', [], {})):
        paths['/%s/{x}' % kind] = {'post': mkop(common + ps, operationId=kind, **kw)}
    return mem_app(doc(host=host, paths=paths))


def args(kind):
    a = dict(x='1', q='qv', r=['a', 'b'])
    a['X-H'] = 'hv'
    if kind in ('body', 'list'):
        b = dict(id=3, tags=['t'], d='2001-02-03', inner=dict(n=0.5))
        a['b'] = b if kind == 'body' else [b]
    if kind == 'form':
        a.update(f='fv', g=['1', '2'])
    if kind == 'file':
        a.update(f='fv', u=dict(data=io.BytesIO(b'first'), filename='a.t', header={'Content-Type': 'x/y'}))
    return a


def expect(kind):
    """what the arguments amount to, in the form of Request._p"""
    a = args(kind)
    m = dict(path={'x': '1'}, query=[('q', 'qv'), ('r', 'a'), ('r', 'b'), ('dflt', 'dv')], header={'X-H': 'hv'}, body={}, formData=[], file={})
    if 'b' in a:
        m['body']['b'] = a['b']
    if kind == 'form':
        m['formData'] = [('f', 'fv'), ('g', '1'), ('g', '2')]
    if kind == 'file':
        m['formData'] = [('f', 'fv')]
        m['file']['u'] = b'first'
    return m


def body0(p):
    b = p['body']['b']
    return b[0] if isinstance(b, list) else b


def put(d, k, v):
    d[k] = v


def swap(l, name, v):
    for i, x in enumerate(l):
        if x[0] == name:
            l[i] = (name, v)
            return
    l.append((name, v))


def drop(l, name):
    l[:] = [x for x in l if x[0] != name]


PATCHES = {
    'path': lambda p: put(p['path'], 'x', u'a/b c\u00e9'),
    'query value': lambda p: swap(p['query'], 'q', '&x= '),
    'query undeclared': lambda p: p['query'].append(('undeclared', '1')),
    'query again': lambda p: p['query'].append(('q', 'again')),
    'query removed': lambda p: drop(p['query'], 'q'),
    'query default': lambda p: swap(p['query'], 'dflt', ''),
    'query emptied': lambda p: p['query'].__delitem__(slice(None)),
    'query replaced': lambda p: put(p, 'query', [('only', 'z')]),
    'header value': lambda p: put(p['header'], 'X-H', 'too long for it'),
    'header undeclared': lambda p: put(p['header'], 'X-New', 'n'),
    'header removed': lambda p: p['header'].pop('X-H', None),
}
BODIES = {
    'type': lambda p: put(body0(p), 'id', 'not_valid'),
    'limit': lambda p: put(body0(p), 'id', 99),
    'null': lambda p: put(body0(p), 'id', None),
    'required': lambda p: body0(p).pop('id', None),
    'unknown': lambda p: put(body0(p), 'more', {'a': [1, None, True]}),
    'nested': lambda p: put(body0(p)['inner'], 'n', 'x'),
    'nested unknown': lambda p: put(body0(p)['inner'], 'z', 1),
    'date': lambda p: put(body0(p), 'd', 'never'),
    'item': lambda p: body0(p)['tags'].append(5),
    'no list': lambda p: put(body0(p), 'tags', {'not': 'a list'}),
}
WHOLE = {
    'whole object': lambda p: put(p['body'], 'b', {'other': 1}),
    'whole list': lambda p: put(p['body'], 'b', [1, 'x']),
    'whole text': lambda p: put(p['body'], 'b', 'text'),
    'whole falsy': lambda p: put(p['body'], 'b', {}),
}
FORMS = {
    'form value': lambda p: swap(p['formData'], 'f', u'&\u6f22='),
    'form undeclared': lambda p: p['formData'].append(('undeclared', '2')),
    'form again': lambda p: p['formData'].append(('f', '')),
}
GONE = {'form removed': lambda p: drop(p['formData'], 'f')}
DATA = b'second\x00\xff'


def patches(kind):
    d = dict(PATCHES)
    if kind in ('body', 'list'):
        d.update(BODIES)
        d.update(WHOLE)
    if kind in ('form', 'file'):
        d.update(FORMS)
    if kind in ('file',):
        d.update(GONE)
        d['file'] = None
    return d


def judge(c, what, kind, w, m):
    c.check(w is not None, '%s: nothing was sent' % what, 'not sent')
    c.eq(w.method, 'POST', what + ': method')
    c.eq(wire.path_bytes(w), (u'/v1/%s/%s' % (kind, m['path']['x'])).encode('utf-8'), what + ': path', 'path')
    c.eq(sorted(parse_qsl(w.query, keep_blank_values=True)), sorted(m['query']), what + ': query', 'query')
    for n in set(x[0] for x in m['query']):
        c.eq([v for k, v in parse_qsl(w.query, keep_blank_values=True) if k == n], [v for k, v in m['query'] if k == n], what + ': order of ' + n, 'query')
    own = dict(w.own())
    ct = own.pop('content-type', None)
    c.eq(own, dict((k.lower(), v) for k, v in m['header'].items()), what + ': headers', 'header')
    if m['file']:
        c.check((ct or '').startswith('multipart/form-data'), what + ': content type %r' % ct, 'content type')
        parts = decode_multipart(ct, w.body, 'utf-8', 200)      # the boundary of flask depends on time and chance
        c.eq(sorted((p[0], p[3]) for p in parts), sorted([(k, v.encode('utf-8')) for k, v in m['formData']] + [(k, v) for k, v in m['file'].items()]), what + ': parts', 'body')
    elif m['formData']:
        c.eq(ct, 'application/x-www-form-urlencoded', what + ': content type', 'content type')
        c.eq(parse_qsl(w.body.decode('utf-8'), keep_blank_values=True), m['formData'], what + ': form', 'body')
    elif m['body']:
        c.eq(ct, 'application/json', what + ': content type', 'content type')
        c.check(same(json.loads(w.body.decode('utf-8')), m['body']['b']), what + ': body %r, patched %r' % (w.body, m['body']['b']), 'body')
    else:
        c.eq(w.body, b'', what + ': body', 'body')


def patched(c):
    """sequences of patches, with sends (by any client) and preparations between them"""
    kind = c.free('operation', ['body', 'list', 'form', 'file', 'none'])
    srv = wire.server()
    app = make(srv.netloc)
    given = args(kind)
    pair = app.op[kind](**given)
    req, resp = pair
    m = expect(kind)
    names = [None] + sorted(patches(kind))
    log = []
    for i in range(3 if engine.TIER == 'thorough' else 2):
        n = (c.free if i == 0 or engine.TIER == 'thorough' else c.pick)('patch %d' % i, names)
        if n is None:
            continue
        # the content of a file is read when prepared
        early = c.pick('before patch %d' % i, [None, 'prepare', 'requests', 'flask', 'tornado'] if kind != 'file' else [None])
        if early == 'prepare':
            req.prepare(scheme='http')
            req.reset()
        elif early:
            w, r = wire.send(early, pair)
            judge(c, '%s before %s' % (early, n), kind, w, m)
        log.append(n)
        if n == 'file':
            req._p['file']['u'].data = io.BytesIO(DATA)
            m['file']['u'] = DATA
            continue
        try:
            patches(kind)[n](m)
        except (KeyError, AttributeError, TypeError):
            # its place is gone by an earlier patch
            m = None
        if m is None:
            return
        patches(kind)[n](req._p) if n != 'query replaced' else put(req._p, 'query', [('only', 'z')])
        c.step()
    client = c.free('client', ['requests', 'flask', 'tornado'])
    w, r = wire.send(client, pair)
    judge(c, '%s after %s' % (client, log), kind, w, m)
    # nobody else is concerned
    if kind not in ('file',):
        c.check(same(given, args(kind)), 'arguments of the caller: %r' % (given,), 'arguments')
    w, r = wire.send(client, app.op[kind](**args(kind)))
    judge(c, '%s, a new request' % client, kind, w, expect(kind))
    c.state(kind, tuple(log))


SCENARIOS = [dict(name='patched', fn=patched, bound=dict(quick=1, thorough=2), space='5 kinds of operations x up to 2 (3) patches out of 11-25 (values outside of the declaration, undeclared names, removed and repeated entries, whole bodies), `bound` further preparations or sends between them, x 3 adapters')]
