"""C20: requests, flask and tornado clients on the wire"""
import io
import json
import os
import shutil
import tempfile

from six.moves.urllib.parse import parse_qsl
from mc import engine, wire
from mc.engine import Skip
from mc.lib import mem_app, doc, op as mkop, P, plain, same
from mc.checks.c11 import decode_multipart, decode_urlenc, guard
from pyswagger import Security

KINDS = ['requests', 'flask', 'tornado']
ASSUMPTIONS = ['custom headers have names the request itself does not use', 'requests and flask cannot repeat a header: the last one is sent unless joined', 'part headers other than Content-Type are framing',
               'text of headers is printable ASCII; file names are ASCII; file objects hold bytes', 'the tornado client reads every answer as JSON',
               'the flask client goes through WSGI, which decodes the path']
JS = 'application/json'


def requests_(c):
    payload = c.free('payload', ['none', 'object', 'array', 'text', 'falsy', 'form', 'forms', 'multi form', 'file', 'named file', 'file and form', 'two files', 'file array', 'empty file', 'named array'])
    methods = ['post', 'put', 'patch', 'delete'] if payload != 'none' else ['get', 'post', 'put', 'patch', 'delete', 'head', 'options']
    method = c.free('method', methods if engine.TIER == 'thorough' or payload == 'none' else methods[:2] + methods[3:])
    query = c.pick('query', ['none', 'one', 'repeated', 'special', 'empty', 'two', 'interleaved', 'number'])
    path = c.pick('path', ['/a', '/a/{x}', '/{x}/b', '/'])
    val = c.pick('value', ['v', 'a b', u'\u00e9/?#', '%41', '+&=']) if '{' in path else None
    hdr = c.pick('header', ['none', 'one', 'array', 'typed', 'user agent'])
    custom = c.pick('custom', ['none', 'dict', 'list', 'repeated', 'joined', 'dict joined', 'empty dict', 'empty list', 'two'])
    sec = c.pick('security', [None, 'basic', 'header', 'query', 'query same name'])
    netloc = c.pick('reached by', ['host', 'option', 'host and scheme option'])
    accept = c.pick('accept', [None, ['application/x-a', JS], 'chosen'])
    twice = c.pick('sent', ['once', 'twice'])
    ps, kw, okw = [], {}, {}
    want_q, want_h = [], []
    if query in ('one', 'two', 'interleaved'):
        ps.append(P('q'))
        kw['q'] = 'v'
        want_q.append(('q', 'v'))
    if query == 'special':
        ps.append(P(u'q \u00e9&='))
        kw[u'q \u00e9&='] = u'a&b=c d+\u6f22%#;/?'
        want_q.append((u'q \u00e9&=', u'a&b=c d+\u6f22%#;/?'))
    if query == 'empty':
        ps.append(P('q'))
        kw['q'] = ''
        want_q.append(('q', ''))
    if query == 'number':
        ps += [P('n', type_='integer'), P('d', type_='number')]
        kw.update(n=0, d=0.5)
        want_q += [('n', '0'), ('d', '0.5')]
    if query in ('repeated', 'interleaved'):
        ps.append(P('r', type_='array', items={'type': 'string'}, collectionFormat='multi'))
        kw['r'] = ['1', '2', '1', '']
        want_q += [('r', x) for x in kw['r']]
    if query in ('two', 'interleaved'):
        ps.append(P('p'))
        kw['p'] = 'w'
        want_q.append(('p', 'w'))
    if val is not None:
        ps.append(P('x', 'path'))
        kw['x'] = val
    if hdr == 'one':
        ps.append(P('X-Own', 'header'))
        kw['X-Own'] = 'own value; a=b'
        want_h.append(('x-own', 'own value; a=b'))
    if hdr == 'array':
        ps.append(P('X-Arr', 'header', 'array', items={'type': 'integer'}, collectionFormat='pipes'))
        kw['X-Arr'] = [1, 2]
        want_h.append(('x-arr', '1|2'))
    if hdr == 'typed':
        ps.append(P('X-D', 'header', format='date'))
        kw['X-D'] = '2001-02-03'
        want_h.append(('x-d', '2001-02-03'))
    if hdr == 'user agent':
        ps.append(P('X-Agent', 'header'))
        ps.append(P('From', 'header'))
        kw['X-Agent'] = 'z'
        kw['From'] = 'me'
        want_h += [('x-agent', 'z'), ('from', 'me')]
    tmp = tempfile.mkdtemp(prefix='c20-')
    try:
        body(c, payload, method, ps, kw, okw, want_q, want_h, path, val, custom, sec, netloc, accept, twice, tmp)
    finally:
        shutil.rmtree(tmp)


def body(c, payload, method, ps, kw, okw, want_q, want_h, path, val, custom, sec, netloc, accept, twice, tmp):
    ct, want = None, None
    fields, files = [], []
    makers = {}
    if payload in ('object', 'array', 'text', 'falsy'):
        ct = JS
        want = {'object': {'a': 1, 'd': '2001-02-03', 'n': {'s': u'\u6f22\u00e9"'}}, 'array': [1, 0, 2], 'text': 'just text', 'falsy': {'a': 0}}[payload]
        sch = {'object': {'type': 'object', 'properties': {'a': {'type': 'integer'}, 'd': {'type': 'string', 'format': 'date'}, 'n': {'type': 'object', 'properties': {'s': {'type': 'string'}}}}},
               'array': {'type': 'array', 'items': {'type': 'integer'}}, 'text': {'type': 'string'}, 'falsy': {'type': 'object', 'properties': {'a': {'type': 'integer'}}}}[payload]
        ps.append(P('b', 'body', schema=sch))
        kw['b'] = want
    elif payload == 'form':
        ps.append(P('f', 'formData'))
        kw['f'] = 'v'
        fields = [('f', 'v')]
    elif payload in ('forms', 'file and form'):
        ps += [P('f 1', 'formData'), P('g', 'formData', 'array', items={'type': 'string'}), P('h', 'formData')]
        kw.update({'f 1': u'a&b=\u00e9\u6f22+ %', 'g': ['x', 'y'], 'h': ''})
        fields = [('f 1', kw['f 1']), ('g', 'x,y'), ('h', '')]
    elif payload == 'multi form':
        ps += [P('m', 'formData', 'array', items={'type': 'string'}, collectionFormat='multi'), P('cnt', 'formData', 'integer')]
        kw.update(m=['1', '2', '1'], cnt=5)
        fields = [('m', '1'), ('m', '2'), ('m', '1'), ('cnt', '5')]
    if payload in ('file', 'file and form', 'two files', 'empty file'):
        ps.append(P('u', 'formData', 'file'))
        data = b'' if payload == 'empty file' else bytes(range(256)) + b'\r\n--x'
        makers['u'] = lambda: dict(data=io.BytesIO(data), filename='a.bin', header={'Content-Type': 'x/y'})
        files.append(('u', 'a.bin', 'x/y', data))
    if payload in ('named file', 'two files'):
        ps.append(P('w', 'formData', 'file'))
        fn = os.path.join(tmp, 'f.txt')
        with open(fn, 'wb') as f:
            f.write(b'content\r\n')
        makers['w'] = lambda: dict(filename=fn, header={'Content-Type': 'text/x'})
        files.append(('w', fn, 'text/x', b'content\r\n'))
    if payload == 'file array':
        ps.append(P('u', 'formData', 'array', items={'type': 'file'}))
        makers['u'] = lambda: [dict(data=io.BytesIO(b'%d' % i), filename='%d.t' % i, header={'Content-Type': 'a/b%d' % i}) for i in range(3)]
        files = [('u', '%d.t' % i, 'a/b%d' % i, b'%d' % i) for i in range(3)]
    if payload == 'named array':
        ps.append(P('u', 'formData', 'array', items={'type': 'file'}))
        for i in range(2):
            fn = os.path.join(tmp, 'n%d.txt' % i)
            with open(fn, 'wb') as f:
                f.write(b'content %d' % i)
            files.append(('u', fn, 'a/c%d' % i, b'content %d' % i))
        makers['u'] = lambda: [dict(filename=fn, header={'Content-Type': ct}) for _, fn, ct, _ in files]
    if files:
        okw['consumes'] = ['multipart/form-data']
        ct = 'multipart/form-data'
    elif fields:
        ct = 'application/x-www-form-urlencoded'
    want_h = list(want_h)
    acc = None
    if accept:
        okw['produces'] = ['application/x-a', JS]
        acc = JS if accept == 'chosen' else 'application/x-a'
        want_h.append(('accept', acc))
    hs, opt = None, {}
    if custom == 'dict' or custom == 'dict joined':
        hs = {'X-C': 'c v', 'x-lower': '1'}
        want_h += [('x-c', 'c v'), ('x-lower', '1')]
    elif custom in ('list', 'two'):
        hs = [('X-C', 'c v')] + ([('X-E', '')] if custom == 'two' else [])
        want_h += [('x-c', 'c v')] + ([('x-e', '')] if custom == 'two' else [])
    elif custom in ('repeated', 'joined'):
        hs = [('X-C', 'b'), ('X-D2', 'z'), ('X-C', 'a')]
        want_h.append(('x-d2', 'z'))
        if custom == 'joined':
            want_h.append(('x-c', 'b,a'))
    elif custom == 'empty dict':
        hs = {}
    elif custom == 'empty list':
        hs = []
    if custom.endswith('joined'):
        opt['join_headers'] = True
    defs = {'basic': {'type': 'basic'}, 'header': {'type': 'apiKey', 'name': 'X-Key', 'in': 'header'}, 'query': {'type': 'apiKey', 'name': 'k y', 'in': 'query'},
            'query same name': {'type': 'apiKey', 'name': 'q', 'in': 'query'}}
    if sec:
        okw['security'] = [{sec: []}]
        if sec == 'basic':
            want_h.append(('authorization', 'Basic dTpwOng='))
        elif sec == 'header':
            want_h.append(('x-key', 'KEY'))
        elif sec == 'query':
            want_q = want_q + [('k y', 'K&Y')]
        else:
            want_q = [x for x in want_q if x[0] != 'q'] + [('q', 'K&Y')]
    srv = wire.server()
    host = srv.netloc if netloc.startswith('host') else 'api.example:1'
    if netloc == 'option':
        opt['url_netloc'] = srv.netloc
    if netloc == 'host and scheme option':
        opt['url_scheme'] = 'http'
    app = mem_app(doc(host=host, schemes=['https'] if netloc == 'host and scheme option' else ['http'], securityDefinitions=defs, paths={path: {method: mkop(ps, operationId='op', **okw)}}))
    security = None
    if sec:
        security = Security(app)
        security.update_with(sec, {'basic': ('u', 'p:x'), 'header': 'KEY'}.get(sec, 'K&Y'))
    for kind in KINDS:
        if kind == 'flask' and path == '/' and False:
            continue
        pair = None
        for n in range(2 if twice == 'twice' else 1):
            if pair is None or makers:
                a = dict(kw)
                a.update((k, m()) for k, m in makers.items())
                pair = app.op['op'](**a)
                if accept == 'chosen':
                    pair[0].produce(JS)
            o = dict(opt)
            h = hs if hs is None else type(hs)(hs)
            w, r = wire.send(kind, pair, o, h, security=security)
            c.step()
            judge(c, '%s' % kind, kind, w, r, method, host if netloc != 'option' else srv.netloc, path, val, want_q, want_h, ct, want, fields, files, custom)
            c.eq(o, opt, '%s: options of the caller' % kind)
            c.eq(h, hs, '%s: headers of the caller' % kind)


def judge(c, what, kind, w, r, method, host, path, val, want_q, want_h, ct, want, fields, files, custom):
    c.check(not isinstance(r, Exception), '%s: %s: %s' % (what, type(r).__name__, r), '%s failed' % kind)
    c.eq(r.status, 200, what + ': status')
    c.check(w is not None, what + ': nothing arrived')
    c.eq((w.method, w.host, w.scheme), (method.upper(), host, 'http'), what + ': method and host', 'method or host')
    full = '/v1' + path.replace('{x}', val or '')
    c.eq(wire.path_bytes(w), full.encode('utf-8'), what + ': path', 'path')
    got = parse_qsl(w.query, keep_blank_values=True)
    c.eq(sorted(got), sorted(want_q), what + ': query', 'query')
    for k in set(k for k, v in want_q):
        c.eq([v for n, v in got if n == k], [v for n, v in want_q if n == k], what + ': order of %s' % k, 'query order')
    own = w.own()
    gct = [v for k, v in own if k == 'content-type']
    own = [x for x in own if x[0] != 'content-type']
    exp = list(want_h)
    if custom == 'repeated':
        exp += [('x-c', 'b'), ('x-c', 'a')] if kind == 'tornado' else [('x-c', 'a')]
        if kind == 'tornado':
            c.eq([v for k, v in w.headers if k == 'x-c'], ['b', 'a'], what + ': order of repeated headers')
    c.eq(own, sorted(exp), what + ': headers', 'headers')
    if ct is None:
        c.eq(w.body, b'', what + ': body')
        c.check(gct in ([], ['']) or kind == 'tornado' and method == 'post' and gct == ['application/x-www-form-urlencoded'], '%s: content type %r without a body' % (what, gct), 'content type')
    else:
        c.eq(len(gct), 1, what + ': content types')
        c.eq(gct[0].split(';')[0].strip(), ct, what + ': content type', 'content type')
    if ct == JS:
        c.check(same(json.loads(w.body.decode('utf-8')), want), '%s: body %r' % (what, w.body), 'body')
    elif files:
        parts = guard(c, decode_multipart, gct[0], w.body, 'utf-8', 200)
        c.eq([(n, x.decode('utf-8')) for n, f, h, x in parts if f is None], fields, what + ': fields', 'fields')
        c.eq([(n, f, h.get('content-type'), x) for n, f, h, x in parts if f is not None], files, what + ': files', 'files')
    elif fields:
        c.eq(guard(c, decode_urlenc, w.body), fields, what + ': form', 'form')
    c.state(kind, method, w.query, w.own())


def answers(c):
    """the same server answer gives the same typed response"""
    status = c.free('status', [200, 201, 202, 204, 404, 500, 400])
    decl = c.free('declared', ['status', 'default', 'other', 'none'])
    bodyk = c.free('body', ['object', 'array', 'date', 'text', 'empty', 'falsy'])
    ctype = c.pick('content type', [JS, JS + '; charset=utf-8', 'Application/JSON'])
    hdrs = c.pick('headers', ['none', 'typed', 'array', 'other case', 'undeclared', 'repeated'])
    raw_only = c.pick('raw body only', [False, True])
    method = c.pick('method', ['get', 'post', 'head'])
    raw = {'object': b'{"a": 5, "d": "2001-02-03", "s": "\xe6\xbc\xa2"}', 'array': b'["1", "2"]', 'date': b'"2001-02-03"', 'text': b'"x"', 'empty': b'', 'falsy': b'0'}[bodyk]
    sch = {'object': {'$ref': '#/definitions/M'}, 'array': {'type': 'array', 'items': {'type': 'integer'}}, 'date': {'type': 'string', 'format': 'date'}, 'text': {'type': 'string'}, 'empty': None,
           'falsy': {'type': 'integer'}}[bodyk]
    if status == 204 or method == 'head':
        sch, raw = None, b''
    val = {'object': {'a': 5, 'd': ('Date', '2001-02-03'), 's': u'\u6f22'}, 'array': [1, 2], 'date': ('Date', '2001-02-03'), 'text': 'x', 'falsy': 0, 'empty': None}[bodyk]
    h = {}
    if hdrs in ('typed', 'other case'):
        h['X-N'] = {'type': 'integer'}
        h['X-D'] = {'type': 'string', 'format': 'date'}
    if hdrs == 'array':
        h['X-A'] = {'type': 'array', 'items': {'type': 'integer'}}
    r = {'description': ''}
    if sch:
        r['schema'] = sch
    if h:
        r['headers'] = h
    resp = {'status': {str(status): r, 'default': {'description': '', 'schema': {'type': 'boolean'}}}, 'default': {'default': r, '299': {'description': ''}},
            'other': {'299': r}, 'none': {'299': {'description': ''}}}[decl]
    applies = decl in ('status', 'default')
    send_h = [('Content-Type', ctype)] if ctype else []
    want_h = {}
    if hdrs == 'typed':
        send_h += [('X-N', '5'), ('X-D', '2001-02-03')]
        want_h = {'x-n': [5 if applies else '5'], 'x-d': [('Date', '2001-02-03') if applies else '2001-02-03']}
    elif hdrs == 'other case':
        send_h += [('x-n', '5'), ('X-d', '2001-02-03')]
        want_h = {'x-n': [5 if applies else '5'], 'x-d': [('Date', '2001-02-03') if applies else '2001-02-03']}
    elif hdrs == 'array':
        send_h += [('X-A', '1,2')]
        want_h = {'x-a': [[1, 2] if applies else '1,2']}
    elif hdrs == 'undeclared':
        send_h += [('X-Z', '5')]
        want_h = {'x-z': ['5']}
    elif hdrs == 'repeated':
        send_h += [('X-Z', '5'), ('X-Y', 'a'), ('X-Z', '4')]
        want_h = {'x-y': ['a']}
    srv = wire.server()
    app = mem_app(doc(host=srv.netloc, definitions={'M': {'type': 'object', 'properties': {'a': {'type': 'integer'}, 'd': {'type': 'string', 'format': 'date'}, 's': {'type': 'string'}}}},
                      paths={'/a': {method: mkop(None, resp, operationId='op')}}))
    for kind in KINDS:
        pair = app.op['op']()
        pair[1].raw_body_only = raw_only
        w, r = wire.send(kind, pair, answer=(status, send_h, raw))
        c.step()
        if isinstance(r, Exception) and kind == 'tornado' and status >= 400 and type(r).__name__ in ('HTTPError', 'HTTPClientError'):
            c.finding('tornado error answers', 'status %d: %s' % (status, r))
            continue
        c.check(not isinstance(r, Exception), '%s: %s: %s' % (kind, type(r).__name__, r), '%s failed' % kind)
        c.check(r is pair[1], kind + ': another response object')
        c.eq(r.status, status, kind + ': status', 'status')
        c.check(isinstance(r.raw, bytes) and r.raw == raw, '%s: raw %r' % (kind, r.raw), 'raw')
        d = plain(r.data)
        c.check(same(d, val if applies and sch and not raw_only else None), '%s: data %r' % (kind, d), 'data')
        got = dict((k.lower(), plain(v)) for k, v in r.header.items())
        for k in ('content-length', 'connection', 'content-type', 'date', 'server'):
            v = got.pop(k, None)
            if k == 'content-type' and ctype:
                c.eq(v, [ctype], kind + ': content type')
        if hdrs == 'repeated':
            z = got.pop('x-z', None)
            c.check(z == ['5', '4'] or kind == 'requests' and z == ['5, 4'], '%s: repeated header %r' % (kind, z), 'repeated header')
        c.check(same(got, want_h), '%s: headers %r, expected %r' % (kind, got, want_h), 'headers')
        c.state(kind, repr(d), sorted(got))


def https(c):
    """the scheme is really used: a TLS handshake arrives, or a WSGI request with https"""
    schemes = c.free('schemes', [['https'], ['http'], ['http', 'https'], ['wss', 'https'], ['ftp'], ['wss']])
    prefer = c.free('preferred', [None, 'http', 'https'])
    opt_s = c.free('option', [None, 'http', 'https'])
    kind = c.free('client', KINDS)
    srv = wire.server()
    app = mem_app(doc(host=srv.netloc, schemes=schemes, paths={'/a': {'get': mkop(operationId='op')}}))
    pair = app.op['op']()
    pair[0].scheme = prefer
    w, r = wire.send(kind, pair, dict(url_scheme=opt_s) if opt_s else None)
    usable = [s for s in ('http', 'https') if s in schemes]
    ok = usable and (not prefer or prefer in usable)
    c.check(bool(w) == bool(ok), 'sent: %s' % bool(w), 'sent')
    if w:
        if opt_s:
            c.eq(w.scheme, opt_s, 'scheme')
        elif prefer:
            c.eq(w.scheme, prefer, 'scheme')
        else:
            c.check(w.scheme in usable, 'scheme %s of %r' % (w.scheme, usable))
    c.state(kind, w and w.scheme)


SCENARIOS = [
    dict(name='requests', fn=requests_, bound=dict(quick=1, thorough=2), space='payload (14) x method on 3 adapters; up to `bound` of query (8), path, value, header, custom headers (9), security, netloc, Accept, resend'),
    dict(name='answers', fn=answers, bound=dict(quick=1, thorough=3), space='status x declaration x body; up to `bound` of content type, headers, raw body only, method'),
    dict(name='https', fn=https, bound=0, space='schemes x preference x option x adapter'),
]
