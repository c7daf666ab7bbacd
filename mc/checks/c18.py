"""C18: which scheme a request is sent by"""
from six.moves.urllib.parse import urlsplit

from mc import engine
from mc.lib import mem_app, doc, op as mkop, P, probe
from pyswagger import App
from pyswagger.getter import SimpleGetter
import json

ASSUMPTIONS = ['which of several usable schemes is taken is left open, as long as it is always the same one']
S3 = ['http', 'https', 'ws']
SUBSETS = [[], ['http'], ['https'], ['ws'], ['http', 'https'], ['https', 'http'], ['ws', 'http'], ['https', 'ws'], ['ws', 'https', 'http']]


def load(url, d):
    class G(SimpleGetter):
        def load(self, path):
            return json.dumps(d)
    app = App.load(url, getter=G)
    app.prepare()
    return app


def choose(c):
    """two sibling operations, several clients, repeated sends with changing preference"""
    docs = c.free('document', [None] + SUBSETS)
    own = c.free('operation', [None] + SUBSETS)
    # what the sibling declares must not matter
    sib = c.pick('sibling', [None, [], ['ws'], ['https'], S3])
    url = c.pick('loaded from', ['http://h.io/swagger.json', 'https://h.io/swagger.json'])
    form = c.pick('form', [frozenset, set, list, tuple])
    extra = c.pick('where', ['path item', 'paths by $ref'])
    d = doc(schemes=docs)
    ops = {'get': mkop(operationId='op', **({} if own is None else dict(schemes=own))), 'put': mkop(operationId='sib', **({} if sib is None else dict(schemes=sib)))}
    if extra == 'path item':
        d['paths'] = {'/a': ops}
    else:
        d['paths'] = {'/a': {'$ref': '#/x-paths/a'}}
        d['paths'] = {'/b': ops, '/a': {'$ref': '#/paths/~1b'}}
        for x in ops.values():
            x.pop('operationId')
    app = load(url, d)
    o = app.op['op'] if extra == 'path item' else app.resolve('#/paths/~1a').get
    declared = own or docs or [url.split(':')[0]]
    for client in SUBSETS:
        cl = probe(form(client))
        usable = set(declared) & set(client)
        pair = o()
        first = None
        for prefer in [None, 'http', 'https', 'ws', 'ftp', 'HTTP', None]:
            pair[0].scheme = prefer
            c.step()
            try:
                req = cl.request(pair)
            except Exception as e:      # noqa
                c.check(not usable or prefer and prefer not in usable, 'declared %r, client %r, preferred %r: refused %s' % (declared, client, prefer, e), 'refused')
                continue
            c.check(usable and (not prefer or prefer in usable), 'declared %r, client %r, preferred %r: accepted' % (declared, client, prefer), 'accepted')
            s = urlsplit(req.url).scheme
            c.check(s in usable, 'sent by %r, usable %r' % (s, usable), 'not usable')
            if prefer:
                c.eq(s, prefer, 'preference')
            else:
                c.check(first in (None, s), 'first %r then %r' % (first, s), 'changes')
                first = s
            c.state(declared, client, s)
    if sib and extra == 'path item':
        got = app.op['sib']()[0].schemes
        c.eq(sorted(got), sorted(sib), 'schemes of the sibling')


def clients(c):
    """one pair on clients that support different schemes; options patch a single send only"""
    declared = c.free('declared', SUBSETS[1:])
    depth = 3 if engine.TIER == 'thorough' else 2
    app = load('http://h.io/swagger.json', doc(schemes=declared, paths={'/a/{x}': {'get': mkop([P('x', 'path'), P('q')], operationId='op')}}))
    pair = app.op['op'](x='1', q='2')
    cl = dict(a=probe(['http', 'https']), b=probe({'ws'}), c=probe(['https']))
    kinds = dict(a=['http', 'https'], b=['ws'], c=['https'])
    prefer = None
    for i in range(depth):
        prefer = c.free('preferred %d' % i, [None, 'http', 'https', 'ws', 'keep']) if i else c.free('preferred 0', [None, 'http', 'https'])
        if prefer != 'keep':
            pair[0].scheme = prefer
        prefer = pair[0].scheme
        w = c.free('client %d' % i, 'abc')
        opt = c.free('option %d' % i, [None, {'url_scheme': 'https'}, {'url_netloc': 'x:1'}, {'url_scheme': 'wss', 'url_netloc': 'y'}])
        usable = set(declared) & set(kinds[w])
        c.step()
        try:
            req = cl[w].request(pair, opt)
        except Exception as e:      # noqa
            c.check(not usable or prefer and prefer not in usable, 'refused %s' % e, 'refused')
            continue
        c.check(usable and (not prefer or prefer in usable), 'accepted', 'accepted')
        sp = urlsplit(req.url)
        o = opt or {}
        if 'url_scheme' in o:
            c.eq(sp.scheme, o['url_scheme'], 'option')
        else:
            c.check(sp.scheme in usable and (not prefer or sp.scheme == prefer), 'scheme %s' % sp.scheme)
        c.eq(sp[1:3], (o.get('url_netloc', 'h.io'), '/v1/a/1'), 'rest of the url')
        c.eq(opt, o and dict(o) or opt, 'options')
        c.state(req.url)


def direct(c):
    """Request.prepare with a scheme or list given"""
    given = c.free('given', ['http', 'https', 'ws'] + SUBSETS[1:] + [None, ('http',), 5, {'http'}])
    prefer = c.free('preferred', [None, 'http', 'https', 'ws'])
    app = load('http://h.io/swagger.json', doc(schemes=S3, paths={'/a': {'get': mkop(operationId='op')}}))
    req, _ = app.op['op']()
    req.scheme = prefer
    before = repr(given)
    c.step()
    try:
        req.prepare(scheme=given)
    except Exception:       # noqa
        c.eq(repr(given), before, 'list of the caller')
        c.check(not isinstance(given, (str, list)) or isinstance(given, list) and prefer and prefer not in given, 'refused %r' % (given,))
        return
    c.eq(repr(given), before, 'list of the caller')
    s = urlsplit(req.url).scheme
    if isinstance(given, str):
        c.eq(s, given, 'scheme')
    elif isinstance(given, list):
        c.check(s == prefer if prefer else s in given, 'scheme %s of %r, preferred %r' % (s, given, prefer))
    else:
        c.fail('accepted %r' % (given,))
    c.state(req.url)


SCENARIOS = [
    dict(name='choose', fn=choose, bound=dict(quick=1, thorough=3), space='schemes of document (10) x operation (10) x client (9 subsets) x sequence of 7 preferences; up to `bound` of: sibling, document URL, container type, referenced path item'),
    dict(name='clients', fn=clients, bound=0, space='all histories of 2 (3) sends on three clients with preferences and URL options'),
    dict(name='direct', fn=direct, bound=0, space='all arguments of prepare'),
]
