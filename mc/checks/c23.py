"""C23: threads and overlapping exchanges on one prepared App"""
import copy
import json

from mc.chance import Owned
import requests.adapters
import requests.models
import six

from mc import engine
from mc import shared
from mc.engine import Violation, Skip
from mc.lib import mem_app, doc, op as mkop, P, plain
from mc.sched import Scheduler
from pyswagger import Security
from pyswagger.core import BaseClient
from pyswagger.primitives import Renderer

ASSUMPTIONS = ['the App is prepared, and everything it refers to loaded, before it is shared; separate Apps may be loaded concurrently',
               'the interpreter lock makes single bytecodes atomic; threads are preempted at line (or call) boundaries inside pyswagger']
J = 'application/json'


def document():
    pet = {'type': 'object', 'required': ['n'], 'discriminator': 'kind', 'properties': {'n': {'type': 'string'}, 'kind': {'type': 'string'}}, 'additionalProperties': True}
    dog = {'allOf': [{'$ref': '#/definitions/Pet'}, {'type': 'object', 'properties': {'w': {'type': 'integer'}, 'd': {'type': 'string', 'format': 'date'}}}]}
    okr = {'200': {'description': '', 'schema': {'$ref': '#/definitions/Dog'}, 'headers': {'X-A': {'type': 'array', 'items': {'type': 'integer'}}}},
           'default': {'description': '', 'schema': {'type': 'array', 'items': {'type': 'integer'}}}}
    return doc(definitions={'Pet': pet, 'Dog': dog}, consumes=[J], produces=[J, 'text/plain'], securityDefinitions={'k': {'type': 'apiKey', 'name': 'key', 'in': 'query'}, 'b': {'type': 'basic'}}, paths={
        '/a/{x}': {'parameters': [P('x', 'path')], 'get': mkop([P('q', type_='array', items={'type': 'string'}, default=['a'], collectionFormat='multi')], okr, operationId='get', security=[{'k': []}]),
                   'post': mkop([P('body', 'body', schema={'$ref': '#/definitions/Dog'})], okr, operationId='post', security=[{'b': []}])},
        '/f': {'post': mkop([P('f', 'formData'), P('g', 'formData', 'array', items={'type': 'integer'}, collectionFormat='pipes')], okr, operationId='form', consumes=['application/x-www-form-urlencoded'])},
        '/t': {'post': mkop([P('b', 'body', schema={'type': 'string', 'minLength': 1}), P('h', 'header', format='date')], {'200': {'description': '', 'schema': {'type': 'string', 'format': 'date-time'}}}, operationId='text',
                            consumes=['text/plain', J], produces=['text/plain'], schemes=['https'])},
        '/u/{i}': {'put': mkop([P('i', 'path', format='uuid'), P('e', format='email'), P('y', 'query', 'boolean', default=True), P('m', 'header', 'number', maximum=2, exclusiveMaximum=True),
                                P('u', 'formData', 'file'), P('t', 'formData', 'array', items={'type': 'string', 'format': 'date-time'}, collectionFormat='multi')],
                               {'200': {'description': '', 'schema': {'type': 'object', 'additionalProperties': {'type': 'string', 'format': 'byte'}}}}, operationId='types', consumes=['multipart/form-data'])},
    })


class Probe(BaseClient):
    """prepares, but sends nothing; keeps nothing either"""
    __schemes__ = set(['http', 'https'])

    def request(self, req_and_resp, opt=None, headers=None):
        req, resp = req_and_resp
        req.reset()
        resp.reset()
        req, resp = super(Probe, self).request((req, resp), opt)
        req.prepare(scheme=self.prepare_schemes(req))
        req._patch(opt)
        return req, self.compose_headers(req, headers, opt)


class Env(object):
    """what the threads share"""
    def __init__(self):
        self.app = mem_app(document())
        # to be dumped
        self.small = mem_app(doc(paths={'/s': {'get': mkop([{'$ref': '#/parameters/S'}], {'200': {'description': '', 'schema': {'$ref': '#/definitions/S'}}}, operationId='small')}},
                                 parameters={'S': P('s', enum=['a', 'b'])}, definitions={'S': {'type': 'object', 'properties': {'p': {'type': 'array', 'items': {'type': 'integer', 'maximum': 3}}}}}))
        self.sec = Security(self.app)
        self.sec.update_with('k', 'key1')
        self.sec.update_with('b', ('u', 'p'))
        self.client = Probe(self.sec)
        from pyswagger.contrib.client.requests import Client
        self.rq = Client(self.sec)
        self.renderer = Renderer()


def view(q):
    return [q.method, q.url, [tuple(x) for x in q.query], sorted((k.lower(), v) for k, v in q.header.items()), q.data if isinstance(q.data, (str, bytes, type(None))) else plain(q.data), sorted(q.files)]


def answer_view(p):
    return [p.status, p.raw, plain(p.data), type(p.data).__name__, sorted((k.lower(), plain(v)) for k, v in p.header.items())]


def call_get(env, n):
    def get():
        q, _ = env.app.op['get'](**([dict(x='1'), dict(x='z/', q=['b', 'c'])][n]))
        q.prepare(scheme='http')
        return view(q)
    return get


def call_post(env, n):
    def post():
        q, _ = env.app.op['post'](x=str(n), body=[{'n': 'm', 'w': 1, 'extra': [1]}, {'n': 'o', 'd': '2001-02-03', 'kind': 'q'}][n])
        q.prepare(scheme='http')
        return view(q)
    return post


def call_form(env, n):
    def form():
        q, _ = env.app.op['form'](**([dict(f='v'), dict(g=[1, 2])][n]))
        q.prepare(scheme='https')
        return view(q)
    return form


def bad_call(env, n):
    def bad():
        try:
            env.app.op['post'](x='1', body=[{'w': 1}, {'n': 'x', 'w': 'no'}][n])
        except Exception as e:      # noqa
            return type(e).__name__, str(e)
    return bad


def answer(env, n):
    _, p = env.app.op['get'](x='1')

    def ans():
        if n:
            p.apply_with(status=404, header=[('X-A', '7')], raw=b'[3, 4]')
        else:
            p.apply_with(status=200, header={'X-A': '1,2'}, raw=b'{"n": "r", "w": 5, "more": 1}')
        return answer_view(p)
    return ans


def sending(env, n):
    pair = env.app.op['get'](x=str(n)) if n else env.app.op['post'](x='5', body={'n': 'w'})

    def send():
        q, h = env.client.request(pair, opt={'url_netloc': 'n%d.io' % n} if n else {}, headers={'A': str(n)})
        return view(q), h
    return send


def exchange(env, n):
    """through the shared requests client"""
    pair = env.app.op['get'](x=str(n), q=['r%d' % n])

    def exch():
        p = env.rq.request(pair, opt={'url_netloc': 'm%d.io' % n}, headers={'A': str(n)})
        return answer_view(p)
    return exch


def lookup(env, n):
    def look():
        a = env.app
        out = [a.op['post'].path, a.resolve('#/definitions/Dog/allOf/1').type, sorted(a.m['Pet'].properties), a.s('a/{x}').get.operationId, getattr(a.resolve('http://h.io/api/swagger.json#/paths/~1f/post/parameters/1'), 'name')]
        if n:
            out.append(json.dumps(env.small.dump(), sort_keys=True))
        return out
    return look


def render(env, n):
    def ren():
        r = env.renderer
        o = r.default()
        o.update(max_property=True, max_parameter=True, max_str_length=1, max_array_length=1, max_prop_count=2, max_name_length=1)
        if n:
            o['parameter_template'] = {'f': 'ff'}
            return json.dumps(r.render_all(env.app.op['form'], opt=o), default=str, sort_keys=True)
        return json.dumps(r.render(env.app.m['Pet'], opt=o), default=str, sort_keys=True)
    return ren


def separate(env, n):
    def sep():
        d = doc(paths={'/p': {'get': mkop([P('a', default='d%d' % n), {'$ref': '#/parameters/Z'}], {'200': {'description': '', 'schema': {'$ref': 'other.json#/S'}}}, operationId='o')}},
                parameters={'Z': P('z', 'header')}, basePath='/b%d' % n)
        other = {'S': {'type': 'object', 'properties': {'k%d' % n: {'type': 'integer', 'default': n}}}}
        a = mem_app({'http://h.io/api/swagger.json': d, 'http://h.io/api/other.json': other})
        q, p = a.op['o'](z='1')
        q.prepare()
        p.apply_with(status=200, raw='{}')
        return view(q), plain(p.data)
    return sep


def text(env, n):
    def txt():
        q, p = env.app.op['text'](b=['t', 'u'][n], **({'h': '2001-02-03'} if n else {}))
        if n:
            q.consume(J)
            p.raw_body_only = True
        q.prepare(scheme='https')
        p.apply_with(status=200, header={'Content-Type': ['text/plain', 'Text/JSON'][n]}, raw=[b'2001-02-03T04:05:06Z', b'"x"'][n])
        return view(q), answer_view(p)
    return txt


def types(env, n):
    def typ():
        q, p = env.app.op['types'](i='11111111-2222-3333-4444-55555555555%d' % n, m=[1, 1.5][n], u=dict(filename='f%d' % n, data=six.BytesIO(b'c%d' % n), header={'Content-Type': 'x/%d' % n}),
                                   **([dict(e='a@b.cd', y=False), dict(t=['2001-02-03T04:05:06', 7])][n]))
        q.prepare(scheme='http', handle_files=bool(n))
        p.apply_with(status=200, raw=b'{"a": "eA=="}')
        v = view(q)
        if n:
            b = v[3][[k for k, _ in v[3]].index('content-type')][1].split('boundary=')[1]
            v = json.loads(json.dumps([x if not isinstance(x, bytes) else x.decode() for x in v]).replace(b, 'B'))
        return v, plain(p.data)
    return typ


BODIES = dict((f.__name__, f) for f in (call_get, call_post, call_form, bad_call, answer, sending, exchange, lookup, render, separate, text, types))


class FakeSend(object):
    """the network for the requests client: answers by URL"""
    def __enter__(self):
        self.old = requests.adapters.HTTPAdapter.send

        def send(adapter, rq, **kw):
            r = requests.models.Response()
            r.status_code = 200
            r.headers['X-A'] = '1'
            r.headers['Content-Type'] = J
            r.url, r.request, r.reason = rq.url, rq, 'OK'
            r.raw = six.BytesIO(json.dumps({'n': '%s %s %s' % (rq.method, rq.url, sorted((k, v) for k, v in rq.headers.items() if k != 'User-Agent'))}).encode())
            return r
        requests.adapters.HTTPAdapter.send = send

    def __exit__(self, *a):
        requests.adapters.HTTPAdapter.send = self.old


class Constant(Owned):
    """no chance in this check"""
    def random(self):
        return 0.5

    def randint(self, a, b):
        return b

    def randrange(self, a, b=None, step=1):
        return range(a)[-1] if b is None else range(a, b, step)[-1]

    def choice(self, s):
        return s[-1]

    def choices(self, s, *a, **k):
        return [s[-1]] * k.get('k', 1)

    def sample(self, s, k):
        return list(s)[:k]

    def uniform(self, a, b):
        return a

    def getrandbits(self, k):
        return 0

    def triangular(self, a=0.0, b=1.0, mode=None):
        return a

    def gauss(self, mu=0.0, sigma=1.0):
        return mu

    def seed(self, *a, **k):
        pass

    def shuffle(self, x, *a):
        pass


_base = []


def base():
    """the environment every execution starts from: executions run in forked processes, this one is never used by them directly"""
    if not _base:
        shared.jit(False)       # see there
        with Constant():
            env = Env()
        _base.append(env)
    return _base[0]


_prof = {}


def alone(kind, n, grain):
    """what the body does alone, its points, and the points at which the shared state differs"""
    env = base()

    def go():
        with FakeSend(), Constant():
            b = BODIES[kind](env, n)
            start = shared.digest(env)[0]
            r, hs, names = shared.profile(env, b, grain)
            changes = [i for i in range(len(hs) - 1) if hs[i] != (hs[i - 1] if i else start)]
            return r, len(hs) - 1, changes, len(set(hs + [start])) > 1, names
    return go


def writes(kind, n, grain, at):
    env = base()

    def go():
        with FakeSend(), Constant():
            return shared.written(env, BODIES[kind](env, n), grain, at)
    return go


def prof(keys):
    todo = dict(((k, alone(*k)) for k in keys if k not in _prof))
    for k, r in shared.forked_many(todo, 400, engine.NPROC).items():
        if r[0] != 'ok':
            raise Violation('%s %d alone: %s' % (k[0], k[1], r), 'alone')
        _prof[k] = r[1] + (set(),)
    todo = dict((k, writes(*(k + (_prof[k][2],)))) for k in todo if _prof[k][3])
    for k, r in shared.forked_many(todo, 400, engine.NPROC).items():
        if r[0] != 'ok':
            raise Violation('%s %d alone: %s' % (k[0], k[1], r), 'alone')
        _prof[k] = _prof[k][:5] + (r[1],)


def threads(pairs, grain, how='points'):
    """all schedules of the two bodies. Reduced: a thread is preempted only where the other one can tell the difference, or can make one:
    at points where the shared state is not what it was at the point before, and at all points if the other thread writes to it.
    'names': instead of all points, before the lines which mention a name of something the other thread writes; 'all': not reduced"""
    def fn(c):
        combo = c.free('threads', pairs)
        env = base()
        prof([(k, n, grain) for k, n in (combo if c.prefix else [x for p in pairs for x in p])])
        ps = [_prof[k, n, grain] for k, n in combo]

        if how == 'points' and not (ps[0][3] or ps[1][3]):
            raise Skip()        # nobody writes: complete in the reduction by names
        at = [set(k for k, names in enumerate(ps[i][4]) if names & ps[1 - i][5]) | set(ps[i][2]) for i in (0, 1)]

        def offer(i, k):
            if how == 'all' or how == 'points' and ps[1 - i][3]:
                return True
            return k in at[i] or k > ps[i][1]

        def go():
            with FakeSend(), Constant():
                bodies = [BODIES[k](env, n) for k, n in combo]
                s = Scheduler(c, bodies, grain, offer=offer)
                err = None
                try:
                    got = s.run()
                    for i, (k, n) in enumerate(combo):
                        if got[i] != ('ok', ps[i][0]):
                            raise Violation('thread %d (%s %d) of %s after %d switches: %.600r, alone %.600r' % (i, k, n, combo, s.switches, got[i], ps[i][0]), 'threads %s %s' % (combo[0][0], combo[1][0]))
                    # nothing is left behind
                    for i, (k, n) in enumerate(combo):
                        r = BODIES[k](env, n)()
                        if r != ps[i][0]:
                            raise Violation('%s %d after the threads: %.600r, alone %.600r' % (k, n, r, ps[i][0]), 'after threads %s' % k)
                    c.state(combo, got)
                except Violation as e:
                    err = (e.msg, e.sig)
                except engine.EngineError as e:
                    # every execution starts from the same state, so this is a matter of time or chance: nothing is concluded from it
                    err = ('the same schedule led elsewhere: %s' % e, 'divergence')
                return err, c.points, c.log, c.transitions, c.states, c.spent
        out = shared.forked(go, 40)
        if out[0] != 'ok':
            c.fail('%s: %s' % (combo, out), 'execution %s' % out[0])
        err, c.points, c.log, c.transitions, c.states, c.spent = out[1]
        if err and err[1] == 'divergence':
            raise Skip()
        if err:
            raise Violation(*err)
    return fn


def cross(*kinds):
    """every pair of kinds, with itself too"""
    out = []
    for i, a in enumerate(kinds):
        for b in kinds[i:]:
            out.append([(a, 0), (b, 1)])
    return out


def both(*kinds):
    return [[(k, 0), (k, 1)] for k in kinds]


KINDS = ['call_get', 'call_post', 'answer', 'bad_call', 'call_form', 'sending', 'exchange', 'lookup', 'render', 'text', 'types']
PAIRS = both(*KINDS) + [p for p in cross(*KINDS) if p[0][0] != p[1][0]]
APPS = [[('separate', 0), (b, 1)] for b in ('separate', 'call_post', 'answer', 'exchange', 'lookup', 'render', 'types')]
FULL = both('call_get', 'call_form', 'sending')


def thorough(fn):
    def go(c):
        if engine.TIER != 'thorough':
            raise Skip()
        fn(c)
    return go


# ---- overlapping exchanges of the asynchronous client -----------------------
class FakeHTTP(object):
    """instead of AsyncHTTPClient.fetch: completes when told"""
    def __init__(self):
        self.pending = {}

    def __enter__(self):
        from tornado.httpclient import AsyncHTTPClient
        from tornado.concurrent import Future
        self.klass = AsyncHTTPClient
        self.old = AsyncHTTPClient.fetch
        fake = self

        def fetch(client, rq, *a, **k):
            f = Future()
            n = [v for key, v in rq.headers.get_all() if key.lower() == 'x-number'][0]
            fake.pending[n] = (f, rq)
            return f
        AsyncHTTPClient.fetch = fetch
        return self

    def __exit__(self, *a):
        self.klass.fetch = self.old


ANSWERS = [(200, [('X-A', '1,2'), ('Content-Type', J)], b'{"n": "r", "w": 5, "more": 1}'), (404, [('X-A', '7'), ('X-A', '8')], b'[3, 4]'), (200, [], b'{"n": "q"}'), 'fails', (200, [], b'{"w": 1}')]
EXCH = [('get', dict(x='1'), None), ('post', dict(x='2', body={'n': 'm', 'w': 1}), {'url_netloc': 'other.io'}), ('form', dict(f='v', g=[1, 2]), {'url_scheme': 'https'}), ('get', dict(x='4', q=['b']), None)]


class Down(Exception):
    pass


class Async(object):
    def __init__(self):
        from mc import wire
        from pyswagger.contrib.client.tornado import TornadoClient
        self.loop = wire._loop()
        with Constant():
            self.env = Env()
        self.http = FakeHTTP()
        self.client = TornadoClient(self.env.sec)
        self.result = {}

    def tick(self):
        from tornado import gen
        self.loop.run_sync(lambda: gen.sleep(0))
        self.loop.run_sync(lambda: gen.sleep(0))

    def start(self, key, n, opts):
        oid, kw, opt = EXCH[n]
        pair = self.env.app.op[oid](**copy.deepcopy(kw))
        fut = self.client.request(pair, opt=opts, headers=[('X-Number', str(key))])
        self.result[key] = fut
        self.tick()

    def complete(self, key, ans):
        from tornado.httpclient import HTTPResponse
        from tornado.httputil import HTTPHeaders
        f, rq = self.http.pending[str(key)]
        if ans == 'fails':
            f.set_exception(Down('down'))
        else:
            h = HTTPHeaders()
            for k, v in ans[1]:
                h.add(k, v)
            f.set_result(HTTPResponse(rq, ans[0], headers=h, buffer=six.BytesIO(ans[2])))
        self.tick()

    def view(self, key):
        f, rq = self.http.pending[str(key)]
        w = [rq.method, rq.url, sorted(h for h in rq.headers.get_all() if h[0] != 'X-Number'), rq.body]
        fut = self.result[key]
        if not fut.done():
            return [w, 'waiting']
        if fut.exception() is not None:
            return [w, type(fut.exception()).__name__, str(fut.exception())]
        return [w, answer_view(fut.result())]


_solo = {}


def solo(n, i):
    """the exchange alone, and not answered yet"""
    if (n, i) not in _solo:
        a = Async()
        with a.http:
            a.start('k', n, EXCH[n][2])
            before = a.view('k')
            a.complete('k', ANSWERS[i])
            _solo[n, i] = (before, a.view('k'))
    return _solo[n, i]


def overlapping(k):
    def fn(c):
        kinds = [c.free('exchange', range(len(EXCH))) if k < 3 else c.free('exchange', [0, 1]) if i else 0 for i in range(k)]
        answers = [c.pick('answer', range(len(ANSWERS))) if k > 2 else c.free('answer', range(len(ANSWERS))) for _ in range(k)]
        want = [solo(n, i) for n, i in zip(kinds, answers)]
        a = Async()
        started, done = [], []
        shared = {}
        with a.http:
            while len(done) < k:
                todo = [('start', i) for i in range(k) if i not in started and (not i or i - 1 in started)] + [('complete', i) for i in started if i not in done]
                what, i = c.free('event', todo)
                if what == 'start':
                    started.append(i)
                    a.start(i, kinds[i], EXCH[kinds[i]][2])
                else:
                    done.append(i)
                    a.complete(i, ANSWERS[answers[i]])
                for j in started:
                    c.eq(json.dumps(a.view(j), default=repr), json.dumps(want[j][1 if j in done else 0], default=repr), 'exchange %d of %s after %s' % (j, kinds, (what, i)))
                c.state(kinds, answers, started, done)
    return fn


SCENARIOS = [
    dict(name='pairs', fn=threads(PAIRS, 'line', 'names'), bound=1, space='all pairs of 11 kinds of work on one App, shared clients and renderer (calls, refused calls, conversions, sends, exchanges, lookups and dumps, rendering, text bodies, files and all formats): every schedule with one preemption at a line of pyswagger, reduced to the points where shared state was changed, or is accessed that the other thread changes'),
    dict(name='apps', fn=threads(APPS, 'call', 'names'), bound=1, space='another App loaded and prepared concurrently, preempted at calls'),
    dict(name='two', fn=overlapping(2), bound=0, space='two overlapping asynchronous exchanges: all kinds, answers and failures, all orders of starting and completing'),
    dict(name='three', fn=overlapping(3), bound=dict(quick=1, thorough=3), space='three overlapping exchanges: all orders, answers up to the bound'),
    dict(name='points', fn=threads(PAIRS, 'line', 'points'), bound=1, space='pairs of which one writes shared state (none on a tree without shared writes): preemption at every line'),
    dict(name='twice', fn=thorough(threads(PAIRS + APPS, 'call', 'names')), bound=dict(quick=0, thorough=2), space='two preemptions at calls (thorough only)'),
    dict(name='unreduced', fn=thorough(threads(FULL, 'line', 'all')), bound=dict(quick=0, thorough=1), space='every preemption at every line, without the reduction (thorough only): validates it'),
]
