"""C21: sending again"""
import itertools
import json
import os
import shutil
import tempfile

from mc import engine, wire
from mc.engine import Skip
from mc.lib import mem_app, doc, op as mkop, P, probe, plain, same
from pyswagger import Security
from pyswagger.core import BaseClient

ASSUMPTIONS = ['files of a request sent again are given by name (a file object is consumed by a send)', 'boundaries of multipart bodies are not compared', 'settings of the pair itself (scheme, consume, produce, raw_body_only) stay in force']
J, X = 'application/json', 'application/x-1'
ERR = {'type': 'object', 'properties': {'code': {'type': 'integer'}}}


def make(kinds, netloc='h.io'):
    body = P('b', 'body', schema={'type': 'object', 'properties': {'a': {'type': 'integer'}, 'd': {'type': 'string', 'format': 'date'}}})
    common = [P('x', 'path'), P('q', type_='array', items={'type': 'string'}, collectionFormat='multi'), P('h', 'header'), P('key')]
    form = [P('f', 'formData'), P('m', 'formData', 'array', items={'type': 'string'}, collectionFormat='multi')]
    files = [P('u', 'formData', 'file'), P('us', 'formData', 'array', items={'type': 'file'})]
    resp = {'200': {'description': '', 'schema': {'type': 'object', 'properties': {'n': {'type': 'integer'}, 'd': {'type': 'string', 'format': 'date'}}}, 'headers': {'X-N': {'type': 'integer'}}},
            '204': {'description': ''}, 'default': {'description': '', 'schema': ERR, 'headers': {'X-D': {'type': 'string', 'format': 'date'}}}}
    sec = [{'bas': []}, {'hdr': [], 'qry': []}]
    ops = {'post': mkop(common + [body], resp, operationId='body', produces=[J, X], security=sec), 'put': mkop(common + form, resp, operationId='form', security=sec),
           'patch': mkop(common + form + files, resp, operationId='files', security=sec), 'delete': mkop(common, resp, operationId='none', security=sec)}
    ops = dict((m, o) for m, o in ops.items() if o['operationId'] in kinds)
    d = doc(host=netloc, schemes=['http', 'https'], paths={'/a/{x}': ops},
            securityDefinitions={'bas': {'type': 'basic'}, 'hdr': {'type': 'apiKey', 'name': 'h', 'in': 'header'}, 'qry': {'type': 'apiKey', 'name': 'key', 'in': 'query'}})
    return mem_app(d)


def args_of(kind, tmp, v=0):
    a = dict(x='p/%d' % v, q=['1', '2', '%d' % v], h='own%d' % v, key='mykey')
    if kind == 'body':
        a['b'] = {'a': v, 'd': '2001-02-03'}
    if kind in ('form', 'files'):
        a.update(f='a&b %d' % v, m=['1', '', '1'])
    if kind == 'files':
        fn = os.path.join(tmp, 'f%d' % v)
        with open(fn, 'wb') as f:
            f.write(b'content %d' % v)
        a.update(u=dict(filename=fn, header={'Content-Type': 'x/y'}), us=[dict(filename=fn), dict(filename=fn)])
    return a


ANSWERS = {
    'ok': (200, [('Content-Type', J), ('X-N', '5'), ('x-z', 'a')], b'{"n": 1, "d": "2001-02-03"}'), 'ok2': (200, [('Content-Type', J)], b'{"n": 0}'), 'empty': (204, [], b''),
    'other': (299, [('Content-Type', J), ('X-D', '2001-02-03')], b'{"code": 7}'), 'malformed': (200, [('Content-Type', J), ('X-N', '6')], b'{"n": '), 'bad header': (200, [('X-N', 'abc')], b'{"n": 2}'),
    'bad codec': (200, [('Content-Type', 'no/such')], b'x'), 'none': None,
}


class Rec(BaseClient):
    """a client in the documented form, with a transport that only records"""
    def __init__(self, schemes, security=None, handle_files=True):
        super(Rec, self).__init__(security)
        self.__schemes__ = schemes
        self.handle_files = handle_files
        self.log = []

    def request(self, req_and_resp, opt=None, headers=None, answer=None):
        req, resp = req_and_resp
        req.reset()
        resp.reset()
        opt = dict(opt or {})
        req, resp = super(Rec, self).request((req, resp), opt)
        req.prepare(scheme=self.prepare_schemes(req), handle_files=self.handle_files)
        req._patch(opt)
        hs = self.compose_headers(req, headers, opt)
        self.log.append(view(req, hs))
        if answer is None:
            raise IOError('no answer')
        status, h, raw = answer
        resp.apply_with(status=status, header=h, raw=raw)
        return resp


def view(req, hs):
    hs = [(k, v) for k, v in hs]
    data = req.data
    ct = [v for k, v in hs if k.lower() == 'content-type']
    if ct and 'boundary=' in ct[0]:
        b = ct[0].split('boundary=')[1]
        data = data.replace(b.encode(), b'B')
        hs = [(k, v.replace(b, 'B')) for k, v in hs]
    return dict(method=req.method, url=req.url, path=req.path, query=[tuple(x) for x in req.query], headers=sorted(hs), data=data if data is None or isinstance(data, (str, bytes)) else plain(data),
                files=sorted(req.files))


def answer_view(resp):
    return dict(status=resp.status, data=plain(resp.data), raw=resp.raw, header=dict((k, plain(v)) for k, v in resp.header.items()))


CLIENTS = ['plain', 'secure', 'other user', 'https only', 'no scheme', 'own files']
OPTS = [None, {'url_netloc': 'n:1'}, {'url_scheme': 'https'}, {'join_headers': True}]
HEADERS = [None, {'h': 'custom'}, [('X', '1'), ('X', '2'), ('h', 'z')]]
PRE = [None, ('scheme', 'https'), ('scheme', 'ftp'), ('scheme', None), ('consume', X), ('consume', J), ('produce', X), ('produce', 'no/such'), ('produce', None), ('consume', None), ('raw', True), ('raw', False)]


def history(c):
    """all histories of sends on one pair; each is compared with a pair made just before"""
    depth = 3 if engine.TIER == 'thorough' else 2
    kind = c.free('operation', ['body', 'form', 'files', 'none'])
    tmp = tempfile.mkdtemp(prefix='c21-')
    try:
        app = make([kind])
        s1, s2 = Security(app), Security(app)
        s1.update_with('bas', ('u', 'p'))
        s1.update_with('qry', 'K1')
        s2.update_with('hdr', 'H2')
        mk = dict(plain=lambda: Rec(['http', 'https']), secure=lambda: Rec(['http', 'https'], s1))
        mk['other user'] = lambda: Rec(['http', 'https'], s2)
        mk['https only'] = lambda: Rec(['https'])
        mk['no scheme'] = lambda: Rec(['ws'])
        mk['own files'] = lambda: Rec(['http', 'https'], s2, False)
        cls = {}
        a = args_of(kind, tmp)
        pair = app.op[kind](**a)
        settings = {}
        for i in range(depth):
            pre = c.pick('setting %d' % i, PRE)
            cl = (c.free if i == 0 or engine.TIER == 'thorough' else c.pick)('client %d' % i, CLIENTS if i == 0 else CLIENTS[1:] + CLIENTS[:1])
            opt = c.pick('option %d' % i, OPTS)
            hs = c.pick('headers %d' % i, HEADERS)
            an = c.free('answer %d' % i, sorted(ANSWERS, key=lambda x: x != 'ok')) if i < depth - 1 else c.pick('answer %d' % i, sorted(ANSWERS, key=lambda x: x != 'ok'))
            if pre:
                settings[pre[0]] = pre[1]
                put(pair, pre)
            fresh = app.op[kind](**args_of(kind, tmp))
            for s in settings.items():
                put(fresh, s)
            if cl not in cls:
                cls[cl] = mk[cl]()
            got = run(cls[cl], pair, opt, hs, ANSWERS[an])
            want = run(mk[cl](), fresh, opt, hs, ANSWERS[an])
            c.step()
            c.check(same(got, want), 'send %d: %r, a new pair gives %r' % (i, got, want), 'differs')
            c.state(kind, got)
    finally:
        shutil.rmtree(tmp)


def put(pair, s):
    if s[0] == 'scheme':
        pair[0].scheme = s[1]
    elif s[0] == 'raw':
        pair[1].raw_body_only = s[1]
    else:
        getattr(pair[0], s[0])(s[1])


def run(client, pair, opt, hs, answer):
    n = len(client.log)
    o = dict(opt) if opt else opt
    h = hs if hs is None else type(hs)(hs)
    try:
        r = client.request(pair, o, h, answer)
        out = 'ok'
    except Exception as e:      # noqa
        out = 'raises %s' % type(e).__name__
    sent = client.log[n:]
    # a failed send may leave the response half filled; what it shows is only compared with the fresh one
    return [out, o, h, sent, answer_view(pair[1])]


STEPS = ['call', 'authorize', 'prepare', 'patch', 'look', 'apply']


def interleave(c):
    """all interleavings of two exchanges (each: call, authorize, prepare, patch, look, apply) of one or two operations"""
    k1, k2 = c.free('first', ['body', 'form', 'files', 'none']), c.free('second', ['same', 'body', 'none'] if engine.TIER == 'thorough' else ['same', 'none'])
    k2 = k1 if k2 == 'same' else k2
    tmp = tempfile.mkdtemp(prefix='c21-')
    try:
        app = make([k1, k2])
        s1 = Security(app)
        s1.update_with('bas', ('u', 'p'))
        s2 = Security(app)
        s2.update_with('qry', 'K2')
        want = []
        for k, v, s in ((k1, 1, s1), (k2, 2, s2)):
            st = {}
            for step in STEPS:
                do(app, st, step, k, v, s, tmp)
            want.append(st)
        st = [{}, {}]
        pos = [0, 0]
        while pos[0] < len(STEPS) or pos[1] < len(STEPS):
            can = [i for i in (0, 1) if pos[i] < len(STEPS)]
            i = c.free('next', can)
            do(app, st[i], STEPS[pos[i]], (k1, k2)[i], i + 1, (s1, s2)[i], tmp)
            pos[i] += 1
        for i in (0, 1):
            for key in ('look', 'apply', 'final'):
                if key == 'final':
                    g, w = answer_view(st[i]['pair'][1]), answer_view(want[i]['pair'][1])
                else:
                    g, w = st[i][key], want[i][key]
                c.check(same(g, w), 'exchange %d, %s: %r, alone %r' % (i, key, g, w), 'influence')
    finally:
        shutil.rmtree(tmp)


def do(app, st, step, k, v, sec, tmp):
    if step == 'call':
        st['pair'] = app.op[k](**args_of(k, tmp, v))
        return
    req, resp = st['pair']
    if step == 'authorize':
        sec(req)
    elif step == 'prepare':
        req.prepare(scheme=['http', 'https'][v % 2])
    elif step == 'patch':
        req._patch({'url_netloc': 'n:%d' % v} if v == 1 else {})
    elif step == 'look':
        st['look'] = view(req, req.header.items())
    else:
        resp.apply_with(*((200, b'{"n": %d}' % v, {'X-N': str(v)}) if v == 1 else (299, b'{"code": 5}', [('X-D', '2001-02-03')])))
        st['apply'] = answer_view(resp)


def adapters(c):
    """the real adapters: one pair sent by several of them"""
    kind = c.free('operation', ['body', 'form', 'files', 'none'])
    depth = 3 if engine.TIER == 'thorough' else 2
    tmp = tempfile.mkdtemp(prefix='c21-')
    try:
        srv = wire.server()
        app = make([kind], srv.netloc)
        s1 = Security(app)
        s1.update_with('bas', ('u', 'p'))
        s1.update_with('qry', 'K1')
        s2 = Security(app)
        s2.update_with('hdr', 'H2')
        pair = app.op[kind](**args_of(kind, tmp))
        for i in range(depth):
            cl = c.free('adapter %d' % i, ['requests', 'flask', 'tornado'])
            sec = c.free('security %d' % i, [None, s1, s2])
            an = c.free('answer %d' % i, ['ok', 'other', 'empty', 'malformed'] if i < depth - 1 else ['ok2'])
            hs = c.pick('headers %d' % i, [None, {'X-C': 'custom'}])
            opt = c.pick('option %d' % i, [None, {'url_scheme': 'http'}])
            got = observe(cl, pair, opt, hs, ANSWERS[an], sec)
            want = observe(cl, app.op[kind](**args_of(kind, tmp)), opt, hs, ANSWERS[an], sec)
            c.step()
            c.check(same(got, want), '%s: send %d: %r, a new pair gives %r' % (cl, i, got, want), 'differs')
            c.check(got[0] is not None, 'nothing arrived')
            c.state(kind, cl, got)
    finally:
        shutil.rmtree(tmp)


def observe(cl, pair, opt, hs, an, sec):
    w, r = wire.send(cl, pair, opt, hs, answer=an, security=sec)
    if w is None:
        return [None, type(r).__name__]
    body = w.body
    own = w.own()
    ct = dict(own).get('content-type', '')
    if 'boundary=' in ct:
        b = ct.split('boundary=')[1].strip('"')
        body = body.replace(b.encode(), b'B')
        own = [(k, v.replace(b, 'B')) for k, v in own]
    v = answer_view(pair[1])
    v['header'] = dict((k.lower(), x) for k, x in v['header'].items() if k.lower() not in ('connection', 'content-length', 'date'))
    return [w.method, wire.path_bytes(w), w.query, own, body, w.scheme, type(r).__name__ if isinstance(r, Exception) else 'ok', v]


SCENARIOS = [
    dict(name='history', fn=history, bound=dict(quick=1, thorough=1), space='4 kinds of operations x all histories of 2 (3) sends over 6 clients and 8 answers or failures; up to `bound` of settings, options, headers'),
    dict(name='interleave', fn=interleave, bound=0, space='all 924 interleavings of the steps of two exchanges x operations'),
    dict(name='adapters', fn=adapters, bound=dict(quick=0, thorough=1), space='all histories of 2 (3) sends over 3 adapters x securities x answers'),
]
